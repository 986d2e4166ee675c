package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// One dimension at a time, far beyond what other tasks reach: how many edges a
// node has when it goes, how often a neighbour comes again, how many
// properties and labels an element has, how long labels, lists and patterns
// are, how many unresolved edges a document has, and how often something was
// done before.

var scaleSizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 50, 63, 64, 65, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300}

func scaleTasks(name string, shards int, sizes []int, run func(c *Ctx, n int)) []Task {
	var ts []Task
	for s := 0; s < shards; s++ {
		s := s
		ts = append(ts, Task{Name: fmt.Sprintf("scale-%s/%d", name, s), Run: func(c *Ctx) {
			for i, n := range sizes {
				if i%shards == s {
					run(c, n)
				}
			}
		}})
	}
	return ts
}

// ---- C01, C02, C03, C05: nodes of many edges go

// hubs attach n edges to node 0.
var hubs = []struct {
	name string
	fill func(w *World, n int)
}{
	{"edges to one node", func(w *World, n int) {
		w.NewNode([]string{"B"}, nil)
		for i := 0; i < n; i++ {
			w.NewEdge(0, 1, "x", PM{"p": i % 3})
		}
	}},
	{"edges from one node, of three labels", func(w *World, n int) {
		w.NewNode([]string{"B"}, nil)
		for i := 0; i < n; i++ {
			w.NewEdge(1, 0, loopEdgeLabel(i), nil)
		}
	}},
	{"loops", func(w *World, n int) {
		w.NewNode([]string{"B"}, nil)
		for i := 0; i < n; i++ {
			w.NewEdge(0, 0, loopEdgeLabel(i/2), PM{"p": i % 2})
		}
	}},
	{"edges to and from many nodes", func(w *World, n int) {
		for i := 0; i < n; i++ {
			w.NewNode(loopLabels(i), PM{"p": i % 4})
			if i%3 == 1 {
				w.NewEdge(i+1, 0, loopEdgeLabel(i/3), PM{"p": i % 5})
			} else {
				w.NewEdge(0, i+1, loopEdgeLabel(i), nil)
			}
		}
	}},
}

func hubTasks(name string, index func(w *World), observe func(w *World)) []Task {
	return scaleTasks(name+"hub", 4, scaleSizes, func(c *Ctx, n int) {
		for _, h := range hubs {
			for how := 0; how < 4; how++ {
				if n > 70 && (how+n)%2 != 0 {
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("node with %d %s, then %s", n, h.name, []string{"it is removed", "it is detached", "its neighbours are removed", "its edges are removed from the newest to the oldest"}[how])
				}, func() {
					w := newWorld()
					if index != nil {
						index(w)
					}
					w.NewNode([]string{"A"}, PM{"p": 1})
					h.fill(w, n)
					w.NewNode([]string{"A"}, PM{"p": 1})
					last := len(w.M.N) - 1
					w.NewEdge(last, 1, "x", PM{"p": 1})
					w.NewEdge(0, last, "y", nil)
					observe(w)
					switch how {
					case 0:
						w.RemoveNode(0)
					case 1:
						w.Detach(0)
					case 2:
						for i := 1; i < last; i++ {
							w.RemoveNode(i)
						}
					case 3:
						for i := n - 1; i >= 0; i-- {
							w.RemoveEdge(i)
						}
					}
					observe(w)
					w.NewEdge(last, last, "x", PM{"p": 1})
					if !w.M.N[0].Gone {
						w.NewEdge(0, last, "z", nil)
						w.RemoveNode(0)
					}
					observe(w)
					c.st.States += 3
					c.st.Traces++
					c.st.Transitions += int64(n) + 4
					c.st.Checks += w.checks
				})
			}
		}
	})
}

// ---- C15

// againTasks: neighbours that come again after all the others.
func againTasks(th bool) []Task {
	return scaleTasks("again", 4, scaleSizes, func(c *Ctx, n int) {
		for mode := 0; mode < 6; mode++ {
			c.Case(func() string {
				return fmt.Sprintf("node with %d neighbours, each by two edges, the second after all the first ones, mode %d", n, mode)
			}, func() {
				w := newWorld()
				w.NewNode([]string{"A"}, nil)
				for i := 0; i < n; i++ {
					w.NewNode([]string{"A"}, nil)
				}
				edge := func(to int, out bool, l string) {
					if out {
						w.NewEdge(0, to, l, nil)
					} else {
						w.NewEdge(to, 0, l, nil)
					}
				}
				for i := 1; i <= n; i++ {
					edge(i, mode != 1, []string{"x", "y"}[i%2*(mode/3)])
				}
				w.NewEdge(0, 0, "x", nil)
				for i := 1; i <= n; i++ {
					to := i
					if mode%2 == 1 {
						to = n + 1 - i
					}
					edge(to, mode != 1 && mode != 2, []string{"x", "y"}[(i+1)%2*(mode/3)])
				}
				w.NewEdge(0, 0, "y", nil)
				x := &pworld{w: w}
				cu := &lpg.Cursor{}
				for _, at := range uniq([]int{0, 1, n / 2, n}) {
					cu.Set(w.N[at])
					w.checkCursor(cu, at, mpath{}, false, x)
				}
				c.st.States++
				c.st.Traces++
				c.st.Transitions += int64(2 * n)
				c.st.Checks += w.checks
			})
		}
	})
}

// ---- C08

// manyOf returns n labels and n properties.
func manyOf(n int) ([]string, PM) {
	p := PM{}
	for i := 0; i < n; i++ {
		p[nameK(i)] = i
	}
	return allNames(n, nameL), p
}

// argumentSizeTasks: the arguments of calls are large, and edited afterwards.
func argumentSizeTasks(th bool) []Task {
	return scaleTasks("arguments", 4, scaleSizes, func(c *Ctx, n int) {
		for how := 0; how < 5; how++ {
			c.Case(func() string {
				return fmt.Sprintf("%d labels and %d properties: edit arguments after %s", n, n,
					[]string{"NewNode", "NewEdge", "SetLabels", "SetLabels with a set used for two nodes", "SetLabels with the label set of another node"}[how])
			}, func() {
				for k := 0; k < 5; k++ {
					w := newWorld()
					ls, ps := manyOf(n)
					labels, props := append(make([]string, 0, n+3), ls...), copyPM(ps)
					lset := set(ls...)
					switch how {
					case 0:
						w.regNode(w.G.NewNode(labels, props), ls, ps)
					case 1:
						w.NewNode(nil, nil)
						w.regEdge(w.G.NewEdge(w.N[0], w.N[0], "x", props), 0, 0, "x", ps)
					case 2, 3:
						w.NewNode([]string{"B"}, nil)
						w.NewNode([]string{"A"}, nil)
						for i := 0; i < how-1; i++ {
							w.N[i].SetLabels(lset)
							w.M.N[i].Labels = normLabels(ls)
						}
					case 4:
						w.NewNode(ls, nil)
						w.NewNode([]string{"A"}, nil)
						lset = w.N[0].GetLabels()
						w.N[1].SetLabels(lset)
						w.M.N[1].Labels = normLabels(ls)
					}
					switch k {
					case 0:
						for i := range labels {
							labels[i] = "zz"
						}
						props[nameK(0)] = 77
						lset.Add("zz")
					case 1:
						_ = append(labels, "zz")
						delete(props, nameK(n-1))
						lset.Remove(nameL(0))
					case 2:
						props["new"] = 1
						lset.AddSet(set("C", "D"))
					case 3:
						for x := range props {
							delete(props, x)
						}
						lset.Remove(ls...)
					case 4:
						for x := range props {
							props[x] = "zz"
						}
						json.Unmarshal([]byte(`["zz"]`), &lset)
					}
					obsAll(w)
					obsIDs(w)
					// and the other way round: what the graph does does not show in the arguments
					before := fmt.Sprint(labels, len(props), props[nameK(0)], lset.Len(), lset.Has(nameL(0)), lset.Has("new label"))
					if how == 1 {
						w.SetEdgeProp(0, "another", 1)
						w.DelEdgeProp(0, nameK(0))
					}
					w.SetNodeProp(0, "another", 1)
					w.DelNodeProp(0, nameK(0))
					w.SetLabels(0, append([]string{"new label"}, ls...))
					w.SetLabels(0, []string{"new label"})
					if after := fmt.Sprint(labels, len(props), props[nameK(0)], lset.Len(), lset.Has(nameL(0)), lset.Has("new label")); after != before {
						fail("changing the element changed the arguments of the call from %s to %s", clip(before, 300), clip(after, 300))
					}
					obsAll(w)
					c.st.States += 2
					c.st.Traces++
					c.st.Transitions += 5
					c.st.Checks += w.checks
				}
			})
		}
	})
}

// ---- C19, C20

// copySizeTasks: elements of many labels and properties are copied, and the
// originals and the copies are edited.
func copySizeTasks(th bool, sub bool) []Task {
	sizes := scaleSizes
	return scaleTasks("contents", 4, sizes, func(c *Ctx, n int) {
		for tfi, tf := range transforms {
			for how := 0; how < 4; how++ {
				if sub != (how == 3) || n > 70 && tfi != n%len(transforms) && tfi != 0 {
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("elements with %d labels and properties copied by %s, properties %s, then edits of both sides", n, []string{"CopyGraph", "CopyNode and CopyEdge", "CopyNode and CloneEdge", "CopySubgraph"}[how], tf.name)
				}, func() {
					edits := 8
					for k := 0; k < edits; k++ {
						src, t := newWorld(), newWorld()
						ls, ps := manyOf(n)
						ps["p"] = 1
						src.NewNode(ls, copyPM(ps))
						src.NewNode(append([]string{"A"}, ls[:n/2]...), copyPM(ps))
						src.NewEdge(0, 1, "x", copyPM(ps))
						src.NewEdge(1, 1, "y", copyPM(ps))
						switch how {
						case 0:
							copyGraph(src, t, tf)
						case 1, 2:
							copySelected(src, t, tf, []int{-2, -2}, how == 2)
						case 3:
							copySubgraph(src, t, tf, 0, map[*lpg.Node]*lpg.Node{})
						}
						e, x := src, tf
						if k%2 == 1 {
							e = t
						} else {
							x = transforms[0]
						}
						switch k / 2 {
						case 0:
							e.SetNodeProp(0, nameK(0), x.f(nameK(0), -5))
							e.SetEdgeProp(0, nameK(n-1), x.f(nameK(n-1), -5))
						case 1:
							e.DelNodeProp(1, nameK(n/2))
							e.DelEdgeProp(1, nameK(0))
						case 2:
							e.SetNodeProp(0, "q", x.f("q", 1))
							e.SetEdgeProp(0, "q", x.f("q", 1))
							e.DelNodeProp(0, "p")
						case 3:
							e.SetLabels(0, []string{"B"})
							e.SetLabels(1, append([]string{"C"}, ls...))
							e.SetEdgeLabel(0, "z")
						}
						both(srcTgt, [2]*World{src, t})
						c.st.Traces++
						c.st.Transitions += 2
						c.st.Checks += src.checks + t.checks
					}
					c.st.States++
				})
			}
		}
	})
}

// ---- C23

// setSizeTasks: sets of many strings share what they can, and each is changed.
func setSizeTasks(th bool) []Task {
	return scaleTasks("changes", 2, append(append([]int{}, scaleSizes...), 513, 1025), func(c *Ctx, n int) {
		c.Case(func() string {
			return fmt.Sprintf("sets of %d strings made from one another, one of them changed", n)
		}, func() {
			all := allNames(n, nameL)
			sort.Strings(all)
			changes := []struct {
				name string
				do   func(s *lpg.StringSet) *lpg.StringSet
				want []string
			}{
				{"Add of a new string", func(s *lpg.StringSet) *lpg.StringSet { return s.Add("zz") }, union(all, []string{"zz"})},
				{"Add of two strings", func(s *lpg.StringSet) *lpg.StringSet { return s.Add(all[0], "a") }, union(all, []string{"a"})},
				{"AddSet", func(s *lpg.StringSet) *lpg.StringSet { return s.AddSet(lpg.NewStringSet("zz", all[n-1])) }, union(all, []string{"zz"})},
				{"AddSet of a set as large", func(s *lpg.StringSet) *lpg.StringSet { return s.AddSet(lpg.NewStringSet(allNames(n, nameK)...)) }, union(all, allNames(n, nameK))},
				{"Remove", func(s *lpg.StringSet) *lpg.StringSet { return s.Remove(all[n/2]) }, minus(all, all[n/2:n/2+1])},
				{"Remove of two strings", func(s *lpg.StringSet) *lpg.StringSet { return s.Remove(all[0], all[n-1], "zz") }, minus(all, []string{all[0], all[n-1]})},
				{"Remove of all strings", func(s *lpg.StringSet) *lpg.StringSet { return s.Remove(all...) }, nil},
				{"UnmarshalJSON", func(s *lpg.StringSet) *lpg.StringSet {
					if err := json.Unmarshal([]byte(`["zz"]`), s); err != nil {
						fail("%v", err)
					}
					return s
				}, []string{"zz"}},
				{"Remove, then Add", func(s *lpg.StringSet) *lpg.StringSet { return s.Remove(all[0]).Add("zz") }, union(all[1:], []string{"zz"})},
				{"Add, then Remove", func(s *lpg.StringSet) *lpg.StringSet { return s.Add("zz").Remove("zz", all[n/2]) }, minus(all, all[n/2:n/2+1])},
			}
			for how := 0; how < 6; how++ {
				for _, ch := range changes {
					for i := 0; i < 3; i++ {
						a := lpg.NewStringSet(all...)
						var b, d lpg.StringSet
						switch how {
						case 0:
							b, d = a.Clone(), a.Clone()
						case 1:
							b = a
							d = b.Clone()
						case 2:
							b.AddSet(a)
							d.AddSet(b)
						case 3:
							b = a.Clone()
							b.Add("gone").Remove("gone")
							d = b
						case 4:
							if l, err := json.Marshal(a); err != nil || json.Unmarshal(l, &b) != nil {
								fail("no JSON round trip")
							}
							d = b.Clone()
							d.Add(all...)
						case 5:
							b = lpg.NewStringSet(a.Slice()...)
							d = lpg.NewStringSet()
							for _, x := range all {
								d.Add(x)
							}
						}
						sets := []*lpg.StringSet{&a, &b, &d}
						if r := ch.do(sets[i]); r != sets[i] {
							fail("%s does not return its receiver", ch.name)
						}
						for j, s := range sets {
							want := all
							if i == j {
								want = ch.want
							}
							c.st.Checks++
							if got := s.SortedSlice(); !sameStrs(got, want) {
								fail("after %s of set %d of three sets (made in way %d), set %d has %d strings %s, expected %d", ch.name, i, how, j, len(got), clip(strings.Join(got, ","), 200), len(want))
							}
							if s.Len() != len(want) || s.Has("zz") != hasStr(want, "zz") || s.Has(all[0]) != hasStr(want, all[0]) || s.Has(all[n/2]) != hasStr(want, all[n/2]) {
								fail("after %s of set %d of three sets (made in way %d), Len and Has of set %d are wrong", ch.name, i, how, j)
							}
						}
						c.st.Traces++
						c.st.Transitions++
					}
				}
			}
			c.st.States++
		})
	})
}

// ---- C25

func longLabelTasks(th bool) []Task {
	return scaleTasks("label", 1, []int{50, 63, 64, 65, 79, 80, 81, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097, 8193, 16384, 16385, 32769, 65535, 65536, 65537, 200000}, func(c *Ctx, n int) {
		for k, unit := range []string{"m", "a\"b\\\n", "éx"} {
			c.Case(func() string { return fmt.Sprintf("edge label of %d bytes, made of %q", n, unit) }, func() {
				l := strings.Repeat(unit, n/len(unit)+1)[:n/len(unit)*len(unit)] + strings.Repeat("z", n%len(unit))
				w := newWorld()
				w.NewNode([]string{l}, PM{l: l})
				w.NewNode(nil, nil)
				w.NewEdge(0, 1, l, PM{"p": l})
				w.NewEdge(1, 1, l+"q", nil)
				w.NewEdge(1, 0, l[:len(l)-1]+string('a'+rune(k)), nil)
				w.checkDOT("G")
				w.checkDOTElements()
				w.checkDOTExcluding(0, 0, true)
				c.st.Checks += w.checks
				c.st.States++
				c.st.Transitions += 3
				c.st.Traces += 3
			})
		}
	})
}

// ---- C27

// longNameTasks: long patterns with names everywhere, whose values are
// supplied to another search.
func longNameTasks(th bool) []Task {
	return wideTasks("long-names", func(f wideFamily) bool { return f.name == "chain" || f.name == "cycle" }, []int{5, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 129}, []int{2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		name := func(p Pat, at ...int) Pat {
			for _, i := range at {
				p[i].Name = fmt.Sprint("v", i)
			}
			return p
		}
		every := make([]int, 2*n+1)
		for i := range every {
			every[i] = i
		}
		var pats []Pat
		for _, dir := range []int{1, -1} {
			for _, at := range []int{0, n, n / 2} {
				for _, names := range [][]int{{2 * n}, {0}, {n / 2 * 2}, {2*n - 1}, {1}, {1, 2*n - 1}, {0, 2 * n}, {n, n + 1}, every} {
					p := longPattern(n, relOf(dir, 1, 1), PI{}, PI{})
					own := at
					if dir < 0 {
						own = n - at
					}
					p[2*at].P = PM{"p": own % len(g.Nodes)}
					if f.name == "cycle" && (names[0] == 0 && len(names) > 1) && len(names) < 10 {
						continue
					}
					pats = append(pats, name(p, names...))
				}
			}
		}
		for pi, p := range pats {
			c.Case(func() string { return fmt.Sprintf("%s, %v, its values then supplied", f.label(n, k), p) }, func() {
				w := newWorld()
				g.fill(w, nil, nil)
				var second []Pat
				for i := len(p) - 1; i >= 0; i-- {
					if p[i].Name == "" || len(second) > 2 {
						continue
					}
					if i%2 == 0 {
						second = append(second, Pat{{Name: p[i].Name}, relOf(0, 1, 1), {}})
					} else {
						second = append(second, Pat{{}, PI{Name: p[i].Name, Min: 1, Max: 1}, {}})
					}
				}
				for i, p2 := range second {
					want, got, ok := w.chain([]Pat{p, p2}, (pi+i)%3, pi%2 == i%2, i%2 == 0)
					if ok && !sameStrs(want, got) {
						fail("supplying every match to %s gives\n %s\nexpected\n %s", p2, clip(strings.Join(got, "\n "), 1500), clip(strings.Join(want, "\n "), 1500))
					}
					c.st.Traces++
					c.st.Transitions += int64(len(want))
				}
				c.st.States++
				c.st.Checks += w.checks
			})
		}
	})
}

// ---- C07, C28

var repeatedGraphs = []struct {
	name string
	mk   func() *World
}{
	{"pair", withIndex(-1, zooShapes[3].f)},
	{"parallel", withIndex(int(lpg.HashIndex), zooShapes[4].f)},
	{"edited", withIndex(int(lpg.BtreeIndex), zooShapes[6].f)},
}

// repeatTasks: every read many times in a row.
func repeatTasks(th bool) []Task {
	var ts []Task
	reps := dt(th, 300, 1100)
	for _, rg := range repeatedGraphs {
		rg := rg
		for s := 0; s < 4; s++ {
			s := s
			ts = append(ts, Task{Name: fmt.Sprintf("scale-repeated-%s/%d", rg.name, s), Run: func(c *Ctx) {
				for ri, r := range allReads() {
					if ri%4 != s {
						continue
					}
					c.Case(func() string { return fmt.Sprintf("graph %s, %q %d times", rg.name, r.name, reps) }, func() {
						w := rg.mk()
						want := r.run(rg.mk(), func() {})
						for i := 1; i <= reps; i++ {
							if got := r.run(w, func() {}); got != want {
								fail("for the %dth time it returns\n%s\ninstead of\n%s", i, got, want)
							}
						}
						obsAll(w)
						c.st.States++
						c.st.Traces += int64(reps)
						c.st.Transitions += int64(reps)
						c.st.Checks += w.checks + int64(reps)
					})
				}
			}})
		}
	}
	return ts
}

// stopAgainTasks: operations are stopped or given up many times in a row.
func stopAgainTasks(th bool) []Task {
	var ts []Task
	reps := dt(th, 300, 1100)
	for _, rg := range repeatedGraphs {
		rg := rg
		reads := allReads()
		ts = append(ts, Task{Name: "scale-stopped-" + rg.name, Run: func(c *Ctx) {
			var wants []string
			for _, r := range reads {
				wants = append(wants, r.run(rg.mk(), func() {}))
			}
			for ri, r := range append(append([]read{}, reads...), stops()...) {
				for k := 1; k <= 3; k++ {
					c.Case(func() string {
						return fmt.Sprintf("graph %s, %q given up or stopped in callback %d, %d times", rg.name, r.name, k, reps)
					}, func() {
						w := rg.mk()
						for i := 1; i <= reps; i++ {
							up := abandon(func() { r.run(w, giveUpAt(k)) })
							if ri < len(reads) && (i&(i-1) == 0 || i == reps) {
								if got := r.run(w, func() {}); got != wants[ri] {
									fail("after it was given up %d times (%v), it returns\n%s\ninstead of\n%s", i, up, got, wants[ri])
								}
							}
						}
						for i, r2 := range reads {
							if got := r2.run(w, func() {}); got != wants[i] {
								fail("after it was given up %d times, %q returns\n%s\ninstead of\n%s", reps, r2.name, got, wants[i])
							}
						}
						obsAll(w)
						c.st.States++
						c.st.Traces++
						c.st.Transitions += int64(reps)
						c.st.Checks += w.checks
					})
				}
			}
		}})
		ts = append(ts, Task{Name: "scale-stopped-wide-" + rg.name, Run: func(c *Ctx) {
			for _, op := range wideOps() {
				for k := 1; k <= 3; k++ {
					c.Case(func() string {
						return fmt.Sprintf("graph %s, %s stopped at element %d, %d times", rg.name, op.name, k, reps)
					}, func() {
						w := rg.mk()
						all := op.run(w, func() bool { return true })
						run := func() (asked int) {
							abandon(func() {
								op.run(w, func() bool { asked++; return asked < k })
							})
							return
						}
						want := run()
						for i := 2; i <= reps; i++ {
							if got := run(); got != want {
								fail("stopped at element %d, it reports %d elements for the first time and %d for the %dth time", k, want, got, i)
							}
							if i&(i-1) == 0 || i == reps {
								if got := op.run(w, func() bool { return true }); got != all {
									fail("after it was stopped %d times, it gives\n%s\ninstead of\n%s", i, got, all)
								}
							}
						}
						obsAll(w)
						c.st.States++
						c.st.Traces++
						c.st.Transitions += int64(reps)
						c.st.Checks += w.checks
					})
				}
			}
		}})
	}
	return ts
}

// valueGraph has property values of every form inside of one another.
func valueGraph() *World {
	w := newWorld()
	w.NewNode([]string{"A"}, PM{"p": []any{native{1}, native{"s"}, []any{native{2}}}, "q": []string{"b", "a", "b"}, "r": native{[]any{native{3}, 1}}})
	w.NewNode([]string{"B", "A"}, PM{"p": native{native{1}}, "q": []int{2, 1, 2}, "r": PM{"z": []any{2, 1}, "a": native{1}}, "n": nil})
	w.NewNode(nil, PM{"p": []any{"b", 1, "a", nil, true, 1.5}, "q": []any{[]any{"b", "a"}, []string{"d", "c"}}, "e": []any{}, "f": []string{}})
	w.NewEdge(0, 1, "x", PM{"p": []any{native{1}, PM{"k": native{2}}}, "q": []string{"y", "x"}})
	w.NewEdge(1, 2, "y", PM{"p": native{[]string{"y", "x"}}, "q": []any{3, 2, 1}})
	w.NewEdge(2, 2, "x", PM{"p": native{1}, "r": []any{}})
	return w
}

// ---- C17

// forwardTasks: documents with many edges whose ends come later.
func forwardTasks(th bool) []Task {
	sizes := append(append([]int{}, scaleSizes...), 450, 513, 1001, 1025, 2500, 4097, 10001)
	return scaleTasks("forward", 2, sizes, func(c *Ctx, n int) {
		for mode := 0; mode < 6; mode++ {
			c.Case(func() string {
				return fmt.Sprintf("%d edges whose ends come later in the document, mode %d", n, mode)
			}, func() {
				var nodes, in, es []string
				last := 1
				switch mode {
				case 0, 4: // all to one node
					for i := 0; i < n; i++ {
						in = append(in, fmt.Sprintf(`{"to":1,"label":"l%d"}`, i))
					}
				case 1: // to a node each
					last = n
					for i := 0; i < n; i++ {
						in = append(in, fmt.Sprintf(`{"to":%d,"label":"l%d"}`, n-i, i))
					}
				case 2, 5: // separate edges
					for i := 0; i < n; i++ {
						es = append(es, fmt.Sprintf(`{"from":%d,"to":%d,"label":"l%d"}`, i%2, (i+1)%2, i))
					}
				case 3: // to itself, and half of them separate
					for i := 0; i < n; i++ {
						if i%2 == 0 {
							in = append(in, fmt.Sprintf(`{"to":0,"label":"l%d"}`, i))
						} else {
							es = append(es, fmt.Sprintf(`{"from":0,"to":1,"label":"l%d"}`, i))
						}
					}
				}
				nodes = append(nodes, `{"n":0,"labels":["A"],"edges":[`+strings.Join(in, ",")+`]}`)
				for i := 1; i <= last; i++ {
					nodes = append(nodes, fmt.Sprintf(`{"n":%d}`, i))
				}
				top := []string{`"nodes":[` + strings.Join(nodes, ",") + `]`, `"edges":[` + strings.Join(es, ",") + `]`}
				if mode >= 4 {
					top[0], top[1] = top[1], top[0]
				}
				doc := "{" + strings.Join(top, ",") + "}"
				g := lpg.NewGraph()
				if err := (lpg.JSON{}).Decode(g, json.NewDecoder(strings.NewReader(doc))); err != nil {
					fail("Decode returns the error %v for the valid document %s", err, clip(doc, 1000))
				}
				if g.NumNodes() != last+1 || g.NumEdges() != n {
					fail("the document of %d nodes and %d edges gives %d and %d", last+1, n, g.NumNodes(), g.NumEdges())
				}
				var a *lpg.Node
				for it := g.GetNodesWithAllLabels(set("A")); it.Next(); {
					a = it.Node()
				}
				seen, tos := map[string]bool{}, map[*lpg.Node]int{}
				for it := g.GetEdges(); it.Next(); {
					e := it.Edge()
					seen[e.GetLabel()] = true
					tos[e.GetTo()]++
					i := 0
					fmt.Sscanf(e.GetLabel(), "l%d", &i)
					from0, to0 := true, false
					switch mode {
					case 2, 5:
						from0, to0 = i%2 == 0, i%2 == 1
					case 3:
						to0 = i%2 == 0
					}
					if (e.GetFrom() == a) != from0 || (e.GetTo() == a) != to0 {
						fail("edge %q connects other nodes than in the document", e.GetLabel())
					}
				}
				if len(seen) != n || mode == 1 && len(tos) != n {
					fail("the document has %d edges with labels of their own, the graph has %d, to %d nodes", n, len(seen), len(tos))
				}
				// the last of the ends is missing
				for _, x := range []string{`"to":1,`, fmt.Sprintf(`"l%d"`, n-1)} {
					i := strings.LastIndex(doc, x)
					if i < 0 {
						continue
					}
					bad := doc[:i] + `"to":77777777,` + doc[i+len(x):]
					if x[1] == 'l' {
						j := strings.LastIndex(doc[:i], `"to":`)
						bad = doc[:j] + `"to":77777777,"label":` + doc[i:]
					}
					if err := (lpg.JSON{}).Decode(lpg.NewGraph(), json.NewDecoder(strings.NewReader(bad))); err == nil {
						fail("Decode accepts the document in which one end is missing: %s", clip(bad, 1000))
					}
				}
				// and it is written and read back
				var b bytes.Buffer
				if err := (lpg.JSON{}).Encode(g, &b); err != nil {
					fail("Encode: %v", err)
				}
				h := lpg.NewGraph()
				if err := (lpg.JSON{}).Decode(h, json.NewDecoder(io.Reader(&b))); err != nil || h.NumNodes() != last+1 || h.NumEdges() != n {
					fail("written and read back: %d nodes and %d edges, error %v", h.NumNodes(), h.NumEdges(), err)
				}
				c.st.States++
				c.st.Traces += 4
				c.st.Transitions += 4
				c.st.Checks += int64(n) + 4
			})
		}
	})
}

// ---- C22

// veryLongListTasks: lists that differ in one place.
func veryLongListTasks(th bool) []Task {
	return scaleTasks("lists", 4, []int{101, 128, 129, 200, 201, 255, 256, 257, 300, 511, 513, 1000, 1001, 1025, 2049}, func(c *Ctx, n int) {
		for kind := 0; kind < 3; kind++ {
			c.Case(func() string { return fmt.Sprintf("lists of %d items of kind %d that differ in one place", n, kind) }, func() {
				mk := func(at, delta int) val {
					var out []val
					for i := 0; i < n; i++ {
						x := 7 * i % 11
						if i == at {
							x += delta
						}
						switch kind {
						case 0:
							out = append(out, vi(x))
						case 1:
							out = append(out, vs(fmt.Sprintf("%03d", x+500)))
						case 2:
							out = append(out, []val{vi(x), vs(fmt.Sprint(x + 500))}[i%2])
						}
					}
					return vl(out...)
				}
				bases := longReps(mk(-1, 0))
				for _, at := range uniq([]int{0, 1, 31, 32, 63, 64, 65, 99, 100, n / 4, n / 2, 2 * n / 3, n - 65, n - 3, n - 2, n - 1}) {
					if at < 0 || at >= n {
						continue
					}
					for _, delta := range []int{1, -1, 0} {
						for _, a := range bases {
							for _, b := range longReps(mk(at, delta)) {
								if got, p := compare(a, b); p || got != -delta {
									fail("comparing a list with one whose item %d is changed by %d gives %d (panic %v)", at, delta, got, p)
								}
								if got, p := compare(b, a); p || got != delta {
									fail("comparing a list whose item %d is changed by %d with the original gives %d (panic %v)", at, delta, got, p)
								}
								c.st.Traces += 2
								c.st.Transitions += 2
								c.st.Checks += 2
							}
						}
					}
				}
				c.st.States++
			})
		}
	})
}
