package main

import (
	"fmt"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Long histories: every sequence of up to a number of steps is repeated many
// times. Steps address elements by their role (the oldest, the newest), so
// the same sequence makes sense again and again. What depends on how often
// something was done, or on how much was there before, shows here.

type loopStep struct {
	name string
	do   func(w *World, k int)
}

// liveNode returns the oldest or the newest node of the graph other than node
// 0, or -1.
func (w *World) liveNode(newest bool) int {
	if newest {
		for i := len(w.M.N) - 1; i > 0; i-- {
			if !w.M.N[i].Gone {
				return i
			}
		}
		return -1
	}
	for i := 1; i < len(w.M.N); i++ {
		if !w.M.N[i].Gone {
			return i
		}
	}
	return -1
}

func (w *World) liveEdge(newest bool) int {
	if newest {
		for i := len(w.M.E) - 1; i >= 0; i-- {
			if !w.M.E[i].Gone {
				return i
			}
		}
		return -1
	}
	for i := range w.M.E {
		if !w.M.E[i].Gone {
			return i
		}
	}
	return -1
}

func loopLabels(k int) []string { return [][]string{{"A"}, {}, {"A", "B"}, {"B"}}[k%4] }
func loopEdgeLabel(k int) string {
	return []string{"x", "y", "z"}[k%3]
}

// loopSteps is the alphabet. k is the number of the step in the history.
var loopSteps = func() []loopStep {
	var out []loopStep
	add := func(name string, do func(w *World, k int)) { out = append(out, loopStep{name, do}) }
	onNode := func(name string, newest bool, do func(w *World, n, k int)) {
		add(name, func(w *World, k int) {
			if n := w.liveNode(newest); n >= 0 {
				do(w, n, k)
			}
		})
	}
	onEdge := func(name string, newest bool, do func(w *World, e, k int)) {
		add(name, func(w *World, k int) {
			if e := w.liveEdge(newest); e >= 0 {
				do(w, e, k)
			}
		})
	}
	same := func(_ string, v any) any { return v }
	add("new node", func(w *World, k int) { w.NewNode(loopLabels(k), PM{"p": k % 5}) })
	add("new plain node", func(w *World, k int) { w.NewNode(nil, nil) })
	add("n0.SetProperty", func(w *World, k int) { w.SetNodeProp(0, "p", k%5) })
	add("n0.SetLabels", func(w *World, k int) { w.SetLabels(0, loopLabels(k)) })
	add("n0.RemoveProperty", func(w *World, k int) { w.DelNodeProp(0, "p") })
	add("n0.Detach", func(w *World, k int) { w.Detach(0) })
	add("new loop at n0", func(w *World, k int) { w.NewEdge(0, 0, loopEdgeLabel(k), PM{"p": k % 5}) })
	onNode("edge n0 to newest node", true, func(w *World, n, k int) { w.NewEdge(0, n, "x", PM{"p": k % 5}) })
	onNode("edge newest node to n0", true, func(w *World, n, k int) { w.NewEdge(n, 0, loopEdgeLabel(k), nil) })
	onNode("edge oldest to newest node", false, func(w *World, n, k int) { w.NewEdge(n, w.liveNode(true), loopEdgeLabel(k+1), PM{"p": 1}) })
	onNode("newest.SetProperty", true, func(w *World, n, k int) { w.SetNodeProp(n, "p", k%5) })
	onNode("newest.SetLabels", true, func(w *World, n, k int) { w.SetLabels(n, loopLabels(k)) })
	onNode("remove newest node", true, func(w *World, n, k int) { w.RemoveNode(n) })
	onNode("remove oldest node", false, func(w *World, n, k int) { w.RemoveNode(n) })
	onNode("copy newest node", true, func(w *World, n, k int) {
		w.regNode(lpg.CopyNode(w.N[n], w.G, same), w.M.N[n].Labels, w.M.N[n].Props)
	})
	onEdge("newest edge.SetLabel", true, func(w *World, e, k int) { w.SetEdgeLabel(e, loopEdgeLabel(k)) })
	onEdge("oldest edge.SetLabel", false, func(w *World, e, k int) { w.SetEdgeLabel(e, loopEdgeLabel(k)) })
	onEdge("newest edge.SetProperty", true, func(w *World, e, k int) { w.SetEdgeProp(e, "p", k%5) })
	onEdge("oldest edge.RemoveProperty", false, func(w *World, e, k int) { w.DelEdgeProp(e, "p") })
	onEdge("remove newest edge", true, func(w *World, e, k int) { w.RemoveEdge(e) })
	onEdge("remove oldest edge", false, func(w *World, e, k int) { w.RemoveEdge(e) })
	onEdge("copy newest edge", true, func(w *World, e, k int) {
		m := w.M.E[e]
		w.regEdge(lpg.CloneEdge(w.N[m.From], w.N[m.To], w.E[e], w.G, same), m.From, m.To, m.Label, m.Props)
	})
	return out
}()

// loopWords lists all sequences of steps of length 1 to n.
func loopWords(n int) [][]int {
	var out [][]int
	last := [][]int{{}}
	for l := 0; l < n; l++ {
		var next [][]int
		for _, w := range last {
			for s := range loopSteps {
				next = append(next, append(append([]int{}, w...), s))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func wordString(word []int) string {
	var s []string
	for _, x := range word {
		s = append(s, loopSteps[x].name)
	}
	return strings.Join(s, "; ")
}

// loopTasks repeats every sequence of exactly len steps reps times. near is
// asked after every repetition while the graph has few elements, far after
// some of the repetitions and in the end. index (if any) is called in the
// beginning (when 0) or in the end (when 1).
func loopTasks(name string, length, reps, few, shards int, index func(w *World), near, far func(w *World)) []Task {
	var ts []Task
	for s := 0; s < shards; s++ {
		s := s
		ts = append(ts, Task{Name: fmt.Sprintf("%sloops-%dx%d/%d", name, length, reps, s), Run: func(c *Ctx) {
			for i, word := range loopWords(length) {
				if len(word) != length || i%shards != s {
					continue
				}
				for when := 0; when < 2; when++ {
					if index == nil && when > 0 {
						continue
					}
					word := word
					c.Case(func() string {
						return fmt.Sprintf("node 0, node 1, then %d times: %s (index phase %d)", reps, wordString(word), when)
					}, func() {
						w := newWorld()
						if index != nil && when == 0 {
							index(w)
						}
						w.NewNode([]string{"A"}, PM{"p": 1})
						w.NewNode([]string{"A"}, PM{"p": 2})
						k := 0
						for r := 1; r <= reps; r++ {
							for _, x := range word {
								loopSteps[x].do(w, k)
								k++
								c.st.Transitions++
							}
							if len(w.M.N)+len(w.M.E) <= few {
								near(w)
								c.st.States++
							} else if r == reps || r&(r-1) == 0 {
								far(w)
								c.st.States++
							}
						}
						if index != nil && when == 1 {
							index(w)
						}
						// and once more after something new
						far(w)
						w.NewNode([]string{"A"}, PM{"p": 1})
						w.NewEdge(0, len(w.N)-1, "x", PM{"p": 1})
						far(w)
						c.st.Traces++
						c.st.Checks += w.checks
					})
				}
			}
		}})
	}
	return ts
}
