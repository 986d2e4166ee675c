package main

import (
	"fmt"

	"github.com/cloudprivacylabs/lpg/v2"
)

// The history properties C01-C05 explore the same kinds of spaces: complete
// trees of operations over small alphabets (merging isomorphic states), the
// same from larger structured seeds, and growing/shrinking ramps.

var (
	nodeStruct = []opKind{opNewNode, opLabels, opNodeProp, opNodeDel, opRemoveNode}
	edgeStruct = []opKind{opNewEdge, opRemoveEdge, opEdgeLabel, opDetach, opRemoveNode}
)

func seedNodes(n int, labels ...string) func(w *World) {
	return func(w *World) {
		for i := 0; i < n; i++ {
			w.NewNode(labels, nil)
		}
	}
}

// seedDense: 3 nodes, 7 edges with 3 labels, loops and parallel edges.
func seedDense(w *World) {
	w.NewNode([]string{"A"}, PM{"p": 1})
	w.NewNode([]string{"A", "B"}, PM{"p": 2})
	w.NewNode(nil, nil)
	w.NewEdge(0, 1, "x", PM{"p": 1})
	w.NewEdge(0, 1, "x", PM{"p": 1})
	w.NewEdge(1, 0, "y", PM{"p": 2})
	w.NewEdge(1, 1, "x", nil)
	w.NewEdge(2, 0, "z", PM{"p": 1})
	w.NewEdge(0, 0, "y", PM{"p": 2})
	w.NewEdge(2, 1, "x", nil)
}

// seedLabels: nodes over all subsets of 3 labels.
func seedLabels(w *World) {
	for i, ls := range subsets([]string{"A", "B", "C"}) {
		w.NewNode(ls, PM{"p": i % 3})
	}
	w.NewNode([]string{"A"}, PM{"p": 1})
	w.NewEdge(0, 1, "x", PM{"p": 1})
	w.NewEdge(1, 2, "y", PM{"p": 2})
	w.NewEdge(2, 2, "z", PM{"p": 1})
}

func dt(thorough bool, q, t int) int {
	if thorough {
		return t
	}
	return q
}

// historyUniverses are the alphabets shared by C01, C02, C03.
func historyUniverses(th bool) []*Universe {
	d := func(q, t int) int { return dt(th, q, t) }
	ls3 := [][]string{{}, {"A"}, {"A", "B"}}
	ls4 := [][]string{{}, {"A"}, {"B"}, {"A", "B"}}
	us := []*Universe{
		{Name: "node-labels", LabelSets: ls4, On: []opKind{opNewNode, opLabels, opRemoveNode}, MaxN: 3, Depth: d(5, 6)},
		{Name: "node-props", LabelSets: [][]string{{}}, NodeProps: []PM{{}, {"p": 1}}, Keys: []string{"p", "q"}, Vals: []any{1, nil}, On: nodeStruct, MaxN: 2, Depth: d(5, 6)},
		{Name: "nodes-removed", LabelSets: ls3, Keys: []string{"p"}, Vals: []any{1}, OnRemoved: true, On: append([]opKind{opDetach}, nodeStruct...), MaxN: 3, Depth: d(5, 6)},
		{Name: "edges", EdgeLabels: []string{"x", "y"}, Seed: seedNodes(2), On: edgeStruct, MaxE: 3, Depth: d(5, 6)},
		{Name: "edges-removed", EdgeLabels: []string{"x", "y"}, Keys: []string{"p"}, Vals: []any{1}, Seed: seedNodes(2, "A"), OnRemoved: true, On: append([]opKind{opEdgeProp, opEdgeDel, opBadEdge}, edgeStruct...), MaxE: 2, Depth: d(4, 5)},
		{Name: "edges-3nodes", EdgeLabels: []string{"x", "y"}, Seed: seedNodes(3), On: []opKind{opNewEdge, opRemoveEdge, opEdgeLabel, opRemoveNode}, MaxE: 3, Depth: d(4, 5), Shards: d(4, 12)},
		{Name: "edge-lists", EdgeLabels: []string{"x", "y", "z"}, Seed: func(w *World) {
			seedNodes(2)(w)
			w.NewEdge(0, 1, "x", nil)
			w.NewEdge(0, 1, "x", nil)
			w.NewEdge(0, 1, "x", nil)
			w.NewEdge(0, 1, "y", nil)
		}, On: []opKind{opRemoveEdge, opEdgeLabel, opNewEdge}, MaxE: 2, Depth: d(4, 5), Shards: d(4, 12)},
		{Name: "edge-props", EdgeLabels: []string{"x"}, EdgeProps: []PM{{}, {"p": 1}}, Keys: []string{"p", "q"}, Vals: []any{1, nil}, Seed: seedNodes(1), On: []opKind{opNewEdge, opEdgeProp, opEdgeDel, opRemoveEdge}, MaxE: 2, Depth: d(4, 6)},
		{Name: "mixed", LabelSets: [][]string{{}, {"A"}}, EdgeLabels: []string{"x", "y"}, Keys: []string{"p"}, Vals: []any{1}, On: []opKind{opNewNode, opFastNewNode, opNewEdge, opFastNewEdge, opLabels, opNodeProp, opEdgeProp, opRemoveEdge, opDetach, opRemoveNode, opEdgeLabel, opCopyNode, opCopyEdge}, MaxN: 3, MaxE: 2, Depth: d(4, 5)},
		{Name: "odd-names", LabelSets: [][]string{{""}, {"", "é<&>\"\\"}, {}}, EdgeLabels: []string{"", "é<&>\"\\"}, Keys: []string{""}, Vals: []any{"", "x"}, On: []opKind{opNewNode, opNewEdge, opLabels, opNodeProp, opNodeDel, opEdgeLabel, opRemoveEdge, opRemoveNode}, MaxN: 2, MaxE: 2, Depth: d(4, 5)},
		{Name: "value-kinds", LabelSets: [][]string{{}}, EdgeLabels: []string{"x"}, Keys: []string{"p"}, Vals: []any{1, []int{1}, []any{1}, native{1}, &nativePtr{1}, "1", []string{"1"}, []any{"1"}, nil, 1.5, true}, Seed: func(w *World) {
			w.NewNode(nil, PM{"p": []int{1}})
			w.NewEdge(0, 0, "x", PM{"p": []string{"1"}})
		}, On: []opKind{opNodeProp, opEdgeProp, opCopyNode, opCopyEdge}, MaxN: 1, MaxE: 1, Depth: d(3, 4)},
		{Name: "removed-dense", LabelSets: [][]string{{}, {"A"}}, EdgeLabels: []string{"x", "y"}, Keys: []string{"p"}, Vals: []any{1}, OnRemoved: true, Seed: func(w *World) {
			seedNodes(2, "A")(w)
			w.NewEdge(0, 1, "x", nil)
			w.NewEdge(0, 1, "x", nil)
			w.NewEdge(0, 1, "x", nil)
			w.NewEdge(1, 1, "y", nil)
			w.NewEdge(1, 0, "y", nil)
		}, On: []opKind{opRemoveEdge, opEdgeLabel, opRemoveNode, opDetach, opLabels, opEdgeProp, opEdgeDel, opNodeProp, opNodeDel, opNewEdge}, MaxE: 1, Depth: d(3, 4)},
		{Name: "node-list", LabelSets: [][]string{{"A"}}, Seed: seedNodes(5, "A"), On: []opKind{opNewNode, opRemoveNode}, MaxN: 3, Depth: d(6, 7)},
		{Name: "from-dense", LabelSets: [][]string{{}, {"B"}, {"A", "C"}}, EdgeLabels: []string{"x", "y", "z", "w"}, Seed: seedDense, On: []opKind{opRemoveEdge, opEdgeLabel, opDetach, opRemoveNode, opLabels, opNewNode, opNewEdge}, MaxN: 1, MaxE: 1, Depth: d(3, 4), Shards: d(12, 24)},
		{Name: "from-labels", LabelSets: append(subsets([]string{"A", "B", "C"}), []string{"D"}), Seed: seedLabels, On: []opKind{opLabels, opRemoveNode, opNewNode, opCopyNode}, MaxN: 1, Depth: d(2, 3)},
	}
	return us
}

func uTasks(us []*Universe, prefix string, scheds []int, observe func(w *wx)) []Task {
	var out []Task
	for _, u := range us {
		if u.Shards < 2 {
			u := u
			out = append(out, Task{Name: prefix + u.Name, Run: func(c *Ctx) { u.explore(c, scheds, observe) }})
			continue
		}
		for i := 0; i < u.Shards; i++ {
			v := *u
			v.shard = i
			out = append(out, Task{Name: fmt.Sprintf("%s%s/%d", prefix, u.Name, i), Run: func(c *Ctx) { v.explore(c, scheds, observe) }})
		}
	}
	return out
}

// ramp is a family of long histories: n elements are created one by one, and
// then removed or edited one by one in a given order.
type ramp struct {
	name string
	n    int
	idx  []lpg.IndexType
	key  func(i int) any // property value of element i
}

var rampOrders = map[string]func(n int) []int{
	"fifo": func(n int) []int {
		o := []int{}
		for i := 0; i < n; i++ {
			o = append(o, i)
		}
		return o
	},
	"lifo": func(n int) []int {
		o := []int{}
		for i := n - 1; i >= 0; i-- {
			o = append(o, i)
		}
		return o
	},
	"inside-out": func(n int) []int {
		o := []int{}
		for i := 0; i < n; i++ {
			x := n/2 + (i+1)/2
			if i%2 == 1 {
				x = n/2 - (i+1)/2
			}
			if x >= 0 && x < n {
				o = append(o, x)
			}
		}
		if len(o) < n {
			have := map[int]bool{}
			for _, x := range o {
				have[x] = true
			}
			for i := 0; i < n; i++ {
				if !have[i] {
					o = append(o, i)
				}
			}
		}
		return o
	},
	"stride": func(n int) []int {
		o := []int{}
		for s := 0; s < 7; s++ {
			for i := s; i < n; i += 7 {
				o = append(o, i)
			}
		}
		return o
	},
}

var rampOrderNames = []string{"fifo", "lifo", "inside-out", "stride"}

// rampTask grows a graph to n nodes and 2n edges, edits every element and
// removes everything again, in each order, observing along the way.
func rampTask(name string, n, every int, key func(i int) any, index func(w *World, when int), observe func(w *World)) Task {
	labelOf := func(i int) []string {
		switch i % 5 {
		case 0:
			return nil
		case 1:
			return []string{"A"}
		case 2:
			return []string{"B"}
		}
		return []string{"A", "B"}
	}
	elabel := func(i int) string { return []string{"x", "y", "x", "z", fmt.Sprint("l", i%11)}[i%5] }
	return Task{Name: name, Run: func(c *Ctx) {
		for _, on := range rampOrderNames {
			for when := 0; when < 3; when++ {
				if index == nil && when > 0 {
					continue
				}
				for mode := 0; mode < 3; mode++ {
					order := rampOrders[on](n)
					c.Case(func() string {
						return fmt.Sprintf("ramp %s n=%d order=%s index-phase=%d mode=%d", name, n, on, when, mode)
					}, func() {
						w := newWorld()
						steps := 0
						tick := func() {
							steps++
							c.st.Transitions++
							if steps%every == 0 {
								observe(w)
								c.st.States++
							}
						}
						if index != nil && when == 0 {
							index(w, when)
						}
						for i := 0; i < n; i++ {
							w.NewNode(labelOf(i), PM{"p": key(i)})
							tick()
							for k := 0; k < 2; k++ {
								to := (i*7 + k*3) % len(w.N)
								w.NewEdge(i, to, elabel(i+k), PM{"p": key(i + k)})
								tick()
							}
						}
						if index != nil && when == 1 {
							index(w, when)
							tick()
						}
						observe(w)
						switch mode {
						case 0: // edit, then remove nodes
							for _, i := range order {
								w.SetLabels(i, labelOf(i+1))
								w.SetNodeProp(i, "p", key(n-i))
								w.SetEdgeLabel(2*i, elabel(i+3))
								w.SetEdgeProp(2*i+1, "p", key(n-i))
								tick()
							}
							if index != nil && when == 2 {
								index(w, when)
								tick()
							}
							for _, i := range order {
								w.RemoveNode(i)
								tick()
							}
						case 1: // remove edges, then strip and remove nodes
							for k := 0; k < 2; k++ {
								for _, i := range order {
									w.RemoveEdge(2*i + k)
									tick()
								}
							}
							for _, i := range order {
								w.DelNodeProp(i, "p")
								w.SetLabels(i, nil)
								tick()
							}
							for _, i := range order {
								w.RemoveNode(i)
								tick()
							}
						case 2: // detach every other node, remove the rest, grow again
							for _, i := range order {
								if i%2 == 0 {
									w.Detach(i)
								} else {
									w.RemoveNode(i)
								}
								tick()
							}
							for k := 0; k < n/2; k++ {
								a := w.NewNode(labelOf(k), PM{"p": key(k)})
								w.NewEdge(a, (k/2)*2, elabel(k), PM{"p": key(k)})
								tick()
							}
						}
						observe(w)
						c.st.Traces++
						c.st.Checks += w.checks
					})
				}
			}
		}
	}}
}

func intKey(i int) any { return i * 7919 % 1009 }

func init() {
	register(&Prop{
		ID:     "C01",
		Bounds: "all operation histories over 15 alphabets up to depth 2-6 (quick) / 3-7 (thorough), up to 3 created nodes and 3 created edges on top of the seed, operations on removed elements included; every transition also with a complete reading of the graph before and after it; ramps of 40, 120 and 300 nodes in 4 orders and 3 modes; every sequence of 1-3 of 22 relative steps repeated 300, 100 and 18 times; graphs with every number of labels and keys up to 13 and selected ones up to 300; one dimension at a time (edges of a node, parallel edges, loops, values) in sizes up to 300; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings); 65606 elements created in the life of a graph of which few are alive; a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Tasks: func(th bool) []Task {
			ts := uTasks(historyUniverses(th), "", []int{0, 3}, func(w *wx) { obsContents(w.World) })
			ts = append(ts, rampTask("ramp-40", 40, 1, intKey, nil, obsContents))
			ts = append(ts, rampTask("ramp-120", 120, 23, intKey, nil, obsContents), rampTask("ramp-300", 300, 149, intKey, nil, obsContents))
			ts = append(ts, loopTasks("", 1, 300, 24, 2, nil, obsContents, obsContents)...)
			ts = append(ts, loopTasks("", 2, dt(th, 100, 300), 24, 4, nil, obsContents, obsContents)...)
			ts = append(ts, loopTasks("", 3, dt(th, 18, 40), 12, 12, nil, obsContents, obsContents)...)
			ts = append(ts, nameTasks("", append(nameSizes, 300), nil, func(int) func(w *World) { return obsContents })...)
			ts = append(ts, similarObserved("similar-names", noIndex, func(s, t string) func(w *World) { return obsContents })...)
			ts = append(append(ts, churnTasks("churn", noIndex, obsContents)...), vastTask("vast", vastContents)...)
			ts = append(ts, hubTasks("", nil, obsContents)...)
			return ts
		},
	})
	register(&Prop{
		ID:     "C02",
		Bounds: "all operation histories over 15 alphabets up to depth 2-6 (quick) / 3-7 (thorough), loops and parallel edges included; every direction, single label and label subset is queried for every node in every state, and once more with a reading before the last operation; ramps of up to 300 nodes; every sequence of 1-3 of 22 relative steps repeated 40, 20 and 9 times; graphs with every number of labels up to 13 and selected ones up to 33 (thorough 100); one dimension at a time (edges of a node, parallel edges, loops, values) in sizes up to 300; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings); 65606 elements created in the life of a graph of which few are alive; a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Tasks: func(th bool) []Task {
			ob := obsAdjacency([]string{"x", "y", "nolabel"})
			obo := obsAdjacency([]string{"", "é<&>\"\\", "x"})
			ob4 := obsAdjacency([]string{"x", "y", "z", "w"})
			lean := obsAdjacencyOf([]string{"x", "y"}, [][]string{{}, {"y"}, {"x", "z"}, {"x", "y", "z"}})
			var ts []Task
			for _, u := range historyUniverses(th) {
				o := ob
				switch u.Name {
				case "odd-names":
					o = obo
				case "edge-lists", "from-dense", "from-labels":
					o = ob4
					u.Reread = func(w *wx) { lean(w.World) }
				}
				ts = append(ts, uTasks([]*Universe{u}, "", []int{0}, func(w *wx) { o(w.World) })...)
			}
			ts = append(ts, rampTask("ramp-24", 24, 5, intKey, nil, ob4))
			ts = append(ts, rampTask("ramp-60", dt(th, 60, 150), 61, intKey, nil, ob4), rampTask("ramp-300", 300, 701, intKey, nil, obsAdjacencyOf([]string{"x", "l3"}, [][]string{{}, {"y", "l3"}})))
			lean3 := obsAdjacencyOf([]string{"x", "y"}, [][]string{{}, {"x", "z"}})
			ts = append(ts, loopTasks("", 1, dt(th, 40, 100), 24, 2, nil, lean3, lean3)...)
			ts = append(ts, loopTasks("", 2, dt(th, 20, 40), 20, 4, nil, lean3, lean3)...)
			ts = append(ts, loopTasks("", 3, dt(th, 9, 20), 12, 12, nil, lean3, lean3)...)
			ts = append(ts, nameTasks("", nameSizes[:len(nameSizes)-dt(th, 7, 1)], nil, func(n int) func(w *World) {
				return obsAdjacencyOf(pickNames(n, nameE), nameSets(n, nameE))
			})...)
			ts = append(ts, similarObserved("similar-names", noIndex, func(s, t string) func(w *World) { return obsAdjacency([]string{s, t}) })...)
			ts = append(append(ts, churnTasks("churn", noIndex, lean3)...), vastTask("vast", vastAdjacency)...)
			ts = append(ts, hubTasks("", nil, lean3)...)
			return ts
		},
	})
	register(&Prop{
		ID:     "C03",
		Bounds: "all operation histories over 15 alphabets up to depth 2-6 (quick) / 3-7 (thorough); every subset of up to 4 labels is looked up in every state, under 2 map orders, and once more with a reading before the last operation; ramps of up to 300 nodes; every sequence of 1-3 of 22 relative steps repeated 300, 100 and 18 times; graphs with every number of labels up to 13 and selected ones up to 300; one dimension at a time (edges of a node, parallel edges, loops, values) in sizes up to 300; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings); 65606 elements created in the life of a graph of which few are alive",
		Tasks: func(th bool) []Task {
			ob := obsLabels([]string{"A", "B", "nolabel"}, []string{"x", "y", "nolabel"})
			obo := obsLabels([]string{"", "é<&>\"\\", "A"}, []string{"", "é<&>\"\\", "x"})
			ob4 := obsLabels([]string{"A", "B", "C", "D"}, []string{"x", "y", "z", "w"})
			var ts []Task
			for _, u := range historyUniverses(th) {
				o := ob
				switch u.Name {
				case "odd-names":
					o = obo
				case "edge-lists", "from-dense", "from-labels":
					o = ob4
				}
				ts = append(ts, uTasks([]*Universe{u}, "", []int{0, 3}, func(w *wx) { o(w.World) })...)
			}
			ts = append(ts, rampTask("ramp-40", 40, 1, intKey, nil, ob4))
			ts = append(ts, rampTask("ramp-120", 120, 13, intKey, nil, ob4), rampTask("ramp-300", 300, 47, intKey, nil, ob4))
			obl := obsLabels([]string{"A", "B"}, []string{"x", "y", "z"})
			ts = append(ts, loopTasks("", 1, 300, 40, 2, nil, obl, obl)...)
			ts = append(ts, loopTasks("", 2, dt(th, 100, 300), 24, 4, nil, obl, obl)...)
			ts = append(ts, loopTasks("", 3, dt(th, 18, 40), 16, 12, nil, obl, obl)...)
			ts = append(ts, nameTasks("", append(nameSizes, 300), nil, obsNames)...)
			ts = append(ts, similarObserved("similar-names", noIndex, func(s, t string) func(w *World) {
				return obsLabels([]string{s, t}, []string{s, t})
			})...)
			ts = append(ts, churnTasks("churn", noIndex, obl)...)
			ts = append(ts, hubTasks("", nil, obl)...)
			return ts
		},
	})
	register(&Prop{
		ID:     "C04",
		Bounds: "all histories in which an index of either kind is declared at any point and elements are created, edited, copied, detached and removed, up to depth 4-5 (quick) / 5-6 (thorough), for 9 families of integer, string, list, nested and native-wrapped values, and once more with all queries before the last operation; ramps of up to 300 elements with few and with 300 distinct values; every sequence of 1-3 of 22 relative steps repeated 300, 60 and 12 times, the index declared first or last; graphs with every number of keys up to 13 and selected ones up to 129, each or every second one indexed; one dimension at a time (edges of a node, parallel edges, loops, values) in sizes up to 300; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings); 65606 elements created in the life of a graph of which few are alive; a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Assume: []string{"Property values under one indexed key are of one comparable kind (the library documents incomparable values as unsupported)."},
		Tasks: func(th bool) []Task {
			var ts []Task
			pt := &nativePtr{2}
			kinds := []struct {
				name string
				vals []any
				qs   []any
			}{
				{"int", []any{1, 2}, []any{1, 2, 3, native{1}}},
				{"string", []any{"a", "b"}, []any{"a", "b", "", pt2("a")}},
				{"native", []any{1, native{1}, pt}, []any{1, 2, native{1}, pt, native{native{2}}}},
				{"list", []any{[]int{1}, []int{1, 2}, []any{1}}, []any{[]int{1}, []any{1, 2}, []int{2}, []any{1}}},
				{"slist", []any{[]string{"a", "b"}, []any{"a"}}, []any{[]string{"a"}, []any{"a", "b"}, []string{}, []string{"ab"}, []string{"a,b"}}},
				{"mixlist", []any{[]any{native{1}, native{2}}, []any{1, native{2}}, []int{1}}, []any{[]int{1, 2}, []any{1, 2}, []any{native{1}}, native{[]int{1, 2}}, []any{&nativePtr{1}, 2}}},
				{"extreme", []any{maxInt, -2, -maxInt - 1}, []any{maxInt, -2, -maxInt - 1, 0, 1, native{maxInt}}},
				{"strings", []any{"", "\x00", "a,"}, []any{"", "\x00", "a,", "a", ",", " "}},
				{"nested", []any{[]any{[]any{1}, []any{2}}, []any{[]any{1, 2}}, []any{[]any{}, []any{1, 2}}}, []any{[]any{[]int{1}, []int{2}}, []any{[]any{1, 2}}, []any{[]int{1, 2}}, []any{[]any{}, []int{1, 2}}}},
			}
			for _, ix := range []lpg.IndexType{lpg.BtreeIndex, lpg.HashIndex} {
				for _, k := range kinds {
					k := k
					pr := []PM{{}}
					for _, v := range k.vals {
						pr = append(pr, PM{"p": v})
					}
					ob := obsPropLookups([]string{"p"}, k.qs)
					observe := func(w *wx) { ob(w.World) }
					us := []*Universe{
						{Name: "nodes", NodeProps: pr[:2], Keys: []string{"p"}, Vals: k.vals, On: []opKind{opNewNode, opNodeProp, opNodeDel, opRemoveNode, opNodeIndex}, MaxN: 3, Depth: dt(th, 5, 6)},
						{Name: "edges", EdgeProps: pr[:2], Keys: []string{"p"}, Vals: k.vals, Seed: seedNodes(1), On: []opKind{opNewEdge, opEdgeProp, opEdgeDel, opRemoveEdge, opDetach, opEdgeIndex}, MaxE: 3, Depth: dt(th, 5, 6)},
					}
					if k.name == "int" {
						us = append(us,
							&Universe{Name: "mixed", NodeProps: pr, EdgeProps: pr, Keys: []string{"p"}, Vals: k.vals, OnRemoved: true, On: []opKind{opNewNode, opFastNewNode, opNewEdge, opFastNewEdge, opNodeProp, opEdgeProp, opCopyNode, opCopyEdge, opRemoveNode, opRemoveEdge, opNodeIndex, opEdgeIndex, opEdgeDel, opNodeDel}, MaxN: 2, MaxE: 2, Depth: dt(th, 4, 5)},
							&Universe{Name: "edges-2nodes", EdgeProps: pr, EdgeLabels: []string{"x", "y"}, Keys: []string{"p"}, Vals: k.vals, Seed: seedNodes(2), On: []opKind{opNewEdge, opEdgeProp, opEdgeLabel, opRemoveEdge, opDetach, opRemoveNode, opEdgeIndex}, MaxE: 2, Depth: dt(th, 4, 5)},
							&Universe{Name: "from-dense", LabelSets: [][]string{{}}, EdgeLabels: []string{"x"}, Keys: []string{"p"}, Vals: []any{1, 2, 3}, Seed: func(w *World) {
								w.G.AddEdgePropertyIndex("p", ix)
								w.G.AddNodePropertyIndex("p", ix)
								seedDense(w)
							}, On: []opKind{opNodeProp, opEdgeProp, opNodeDel, opEdgeDel, opRemoveEdge, opDetach, opRemoveNode}, Depth: dt(th, 3, 4)},
						)
						two := obsPropLookups([]string{"p", "q"}, []any{1, 2})
						us2 := &Universe{Name: "two-keys", NodeProps: []PM{{}, {"p": 1, "q": 1}}, Keys: []string{"p", "q"}, Vals: []any{1, 2}, On: []opKind{opNewNode, opNodeProp, opNodeDel, opRemoveNode, opNodeIndex}, MaxN: 2, Depth: dt(th, 4, 5), Index: ix}
						us2e := &Universe{Name: "two-keys-edges", EdgeProps: []PM{{}, {"p": 1, "q": 1}, {"p": 2, "q": 1, "r": 1}}, EdgeLabels: []string{"x"}, Keys: []string{"p", "q"}, Vals: []any{1, 2}, Seed: seedNodes(1), On: []opKind{opNewEdge, opEdgeProp, opEdgeDel, opRemoveEdge, opDetach, opEdgeIndex}, MaxE: 2, Depth: dt(th, 4, 5), Index: ix}
						us2n := &Universe{Name: "three-keys", NodeProps: []PM{{"p": 1, "q": 1, "r": 1}, {"p": 2, "q": 1, "r": 2}}, Keys: []string{"p", "q", "r"}, Vals: []any{2}, On: []opKind{opNewNode, opRemoveNode, opNodeIndex}, MaxN: 2, Depth: 5, Index: ix}
						us3e := &Universe{Name: "three-keys-edges", EdgeProps: []PM{{"p": 1, "q": 1, "r": 1}, {"p": 2, "q": 1, "r": 2}}, EdgeLabels: []string{"x"}, Keys: []string{"p", "q", "r"}, Seed: seedNodes(1), On: []opKind{opNewEdge, opRemoveEdge, opDetach, opEdgeIndex}, MaxE: 2, Depth: 5, Index: ix}
						three := obsPropLookups([]string{"p", "q", "r"}, []any{1, 2})
						ts = append(ts, uTasks([]*Universe{us2, us2e}, ixName(ix)+"-"+k.name+"-", []int{0, 3}, func(w *wx) { two(w.World) })...)
						ts = append(ts, uTasks([]*Universe{us2n, us3e}, ixName(ix)+"-"+k.name+"-", []int{0, 1, 2, 3, 4, 5, 6, 7}, func(w *wx) { three(w.World) })...)
					}
					for _, u := range us {
						u.Index = ix
					}
					ts = append(ts, uTasks(us, ixName(ix)+"-"+k.name+"-", []int{0}, observe)...)
				}
				index := func(w *World, when int) {
					w.G.AddNodePropertyIndex("p", ix)
					w.G.AddEdgePropertyIndex("p", ix)
				}
				few := obsPropLookups([]string{"p"}, []any{0, 1, 2, 3})
				ts = append(ts, rampTask(ixName(ix)+"-ramp-dup-300", 300, 37, func(i int) any { return i % 4 }, index, few))
				ts = append(ts, rampTask(ixName(ix)+"-ramp-dup", 40, 1, func(i int) any { return i % 4 }, index, few))
				many := obsPropLookups([]string{"p"}, []any{0, intKey(1), intKey(5), intKey(17), intKey(39), intKey(100)})
				ts = append(ts, rampTask(ixName(ix)+"-ramp-distinct", dt(th, 130, 300), 17, intKey, index, many))
				strs := obsPropLookups([]string{"p"}, []any{"k0", "k7", "k23", "zz"})
				ts = append(ts, rampTask(ixName(ix)+"-ramp-distinct-300", 300, 61, intKey, index, many))
				ts = append(ts, rampTask(ixName(ix)+"-ramp-strings", 60, 7, func(i int) any { return fmt.Sprint("k", i%37) }, index, strs))
				ixl := func(w *World) { index(w, 0) }
				ts = append(ts, hubTasks(ixName(ix)+"-", ixl, few)...)
				ts = append(ts, loopTasks(ixName(ix)+"-", 1, 300, 40, 1, ixl, few, few)...)
				ts = append(ts, loopTasks(ixName(ix)+"-", 2, dt(th, 60, 200), 24, 4, ixl, few, few)...)
				ts = append(ts, loopTasks(ixName(ix)+"-", 3, dt(th, 12, 30), 16, 12, ixl, few, few)...)
				for _, keys := range []int{1, 2} { // every key has an index, or every second one
					ts = append(ts, nameTasks(fmt.Sprintf("%s-%d-", ixName(ix), keys), nameSizes, func(w *World, n int) {
						for i := 0; i < n; i += keys {
							w.G.AddNodePropertyIndex(nameK(i), ix)
							w.G.AddEdgePropertyIndex(nameK(n-1-i), ix)
						}
					}, func(n int) func(w *World) { return obsPropLookups(pickNames(n, nameK), []any{0, 1, 2, 3}) })...)
				}
			}
			ts = append(ts, similarObserved("similar-names", everyIndex[1:], func(s, t string) func(w *World) {
				return obsPropLookups([]string{s, t, "val"}, []any{s, t})
			})...)
			ts = append(ts, churnTasks("churn", everyIndex, obsPropLookups([]string{"p", "q"}, []any{0, 1, 2, 3}))...)
			ts = append(append(ts, vastTask("vast-btree", vastFind(int(lpg.BtreeIndex)))...), vastTask("vast-hash", vastFind(int(lpg.HashIndex)))...)
			return ts
		},
	})
	register(&Prop{
		ID:     "C05",
		Bounds: "all histories over 6 alphabets up to depth 3-4 (quick) / 4-5 (thorough) without, with btree and with hash indexes, and over 2 more alphabets whose values and queries under one key are integers, strings, lists and wrapped values alike (stored values also nil, boolean and fractional) without and with hash indexes; in every state every combination of label subset and property query (0, 1 or 2 keys; absent keys and values included), filter functions made before the last operation are asked again after it; ramps of up to 300 nodes; every sequence of 1-2 of 22 relative steps repeated 100 and 20 times; graphs with every number of labels and keys up to 13 and selected ones up to 63 (thorough 100); lists (flat, nested), wrapped values and text of lengths up to 257 next to shorter, longer and in one place different ones; one dimension at a time (edges of a node, parallel edges, loops, values) in sizes up to 300; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings); 65606 elements created in the life of a graph of which few are alive; a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Assume: []string{"Property values under a key with an ordered index are of one comparable kind; query values are of the kinds that can be compared, and not nil."},
		Tasks: func(th bool) []Task {
			var ts []Task
			qs := []PM{nil, {"p": 1}, {"p": 2}, {"p": 9}, {"q": 1}, {"p": 1, "q": 1}, {"p": 2, "q": 1}, {"p": native{1}}, {"nokey": 1}, {"p": 1, "nokey": 1}}
			ob := obsFind([]string{"A", "B", "nolabel"}, []string{"x", "y", "nolabel"}, qs)
			observe := func(w *wx) { ob(w.World) }
			pr := []PM{{}, {"p": 1}, {"p": 1, "q": 1}}
			for _, ix := range []int{-1, int(lpg.BtreeIndex), int(lpg.HashIndex)} {
				name := "noindex-"
				seed := func(f func(w *World)) func(w *World) { return f }
				if ix >= 0 {
					name = ixName(lpg.IndexType(ix)) + "-"
					seed = func(f func(w *World)) func(w *World) {
						return func(w *World) {
							w.G.AddNodePropertyIndex("p", lpg.IndexType(ix))
							w.G.AddEdgePropertyIndex("p", lpg.IndexType(ix))
							w.G.AddNodePropertyIndex("q", lpg.IndexType(ix))
							w.G.AddEdgePropertyIndex("q", lpg.IndexType(ix))
							if f != nil {
								f(w)
							}
						}
					}
				}
				us := []*Universe{
					{Name: "nodes", LabelSets: [][]string{{}, {"A"}, {"A", "B"}}, NodeProps: pr, Keys: []string{"p", "q"}, Vals: []any{1, 2}, Seed: seed(nil), On: []opKind{opNewNode, opNodeProp, opLabels, opRemoveNode}, MaxN: 3, Depth: dt(th, 3, 4)},
					{Name: "edges", EdgeLabels: []string{"x", "y"}, EdgeProps: pr, Keys: []string{"p", "q"}, Vals: []any{1, 2}, Seed: seed(seedNodes(1)), On: []opKind{opNewEdge, opEdgeProp, opEdgeLabel, opEdgeDel, opRemoveEdge}, MaxE: 3, Depth: dt(th, 3, 4)},
					{Name: "odd-labels", LabelSets: [][]string{{}, {""}, {"", "A"}}, EdgeLabels: []string{"", "x"}, EdgeProps: pr[:2], Keys: []string{""}, Vals: []any{1}, Seed: seed(seedNodes(1)), On: []opKind{opNewNode, opNewEdge, opLabels, opEdgeLabel, opNodeProp, opEdgeProp, opRemoveEdge}, MaxN: 1, MaxE: 2, Depth: dt(th, 3, 4)},
					{Name: "edges-2nodes", EdgeLabels: []string{"x", "y"}, EdgeProps: pr[:2], Keys: []string{"p"}, Vals: []any{2}, Seed: seed(seedNodes(2, "A")), On: []opKind{opNewEdge, opEdgeProp, opRemoveEdge, opRemoveNode, opEdgeLabel}, MaxE: 3, Depth: dt(th, 3, 4)},
					{Name: "from-dense", LabelSets: [][]string{{}, {"A"}, {"B"}}, EdgeLabels: []string{"x", "y", "z"}, Keys: []string{"p"}, Vals: []any{1, native{1}, 2}, Seed: seed(seedDense), On: []opKind{opLabels, opNodeProp, opEdgeProp, opEdgeLabel, opNodeDel, opEdgeDel, opRemoveEdge, opRemoveNode}, Depth: dt(th, 2, 3)},
					{Name: "from-labels", LabelSets: [][]string{{}, {"A"}, {"B", "A"}}, EdgeLabels: []string{"x"}, Keys: []string{"p"}, Vals: []any{1}, Seed: seed(seedLabels), On: []opKind{opLabels, opNodeProp, opNodeDel, opRemoveNode}, Depth: dt(th, 2, 3)},
				}
				// values and queries of several kinds under one key (an ordered
				// index cannot hold these)
				if ix != int(lpg.BtreeIndex) {
					kinds := []any{1, "1", []any{1}, native{"1"}, []any{1, "a"}, []string{"1"}, nil, true, 1.5}
					kq := []PM{{"p": 1}, {"p": "1"}, {"p": ""}, {"p": []any{1}}, {"p": []int{1}}, {"p": []string{"1"}}, {"p": []any{1, "a"}}, {"p": []any{1, 2}}, {"p": native{"1"}}, {"p": native{1}}, {"p": native{[]any{"1"}}}, {"p": 0}, {"q": 1}, {"p": "1", "q": "1"}, {"q": 1, "p": []int{1}}}
					ok := obsFind([]string{"A"}, []string{"x"}, kq)
					kp := []PM{{}, {"p": "1", "q": "1"}, {"p": []int{1}, "q": 1}}
					kus := []*Universe{
						{Name: "kinds-nodes", LabelSets: [][]string{{}, {"A"}}, NodeProps: kp, Keys: []string{"p"}, Vals: kinds, Seed: seed(nil), On: []opKind{opNewNode, opNodeProp, opNodeDel, opRemoveNode}, MaxN: 2, Depth: dt(th, 3, 4)},
						{Name: "kinds-edges", EdgeLabels: []string{"x", "y"}, EdgeProps: kp, Keys: []string{"p"}, Vals: kinds, Seed: seed(seedNodes(1)), On: []opKind{opNewEdge, opEdgeProp, opEdgeDel, opRemoveEdge}, MaxE: 2, Depth: dt(th, 3, 4)},
					}
					ts = append(ts, uTasks(kus, name, []int{0, 3, 6}, func(w *wx) { ok(w.World) })...)
				}
				odd := obsFind([]string{"", "A"}, []string{"", "x"}, []PM{nil, {"": 1}, {"p": 1}, {"": 2}, {"": 1, "p": 1}})
				for _, u := range us {
					o := observe
					if u.Name == "odd-labels" {
						o = func(w *wx) { odd(w.World) }
					}
					ts = append(ts, uTasks([]*Universe{u}, name, []int{0, 5}, o)...)
				}
				var index func(w *World, when int)
				if ix >= 0 {
					index = func(w *World, when int) {
						w.G.AddNodePropertyIndex("p", lpg.IndexType(ix))
						w.G.AddEdgePropertyIndex("p", lpg.IndexType(ix))
					}
				}
				o := obsFind([]string{"A", "B"}, []string{"x", "y", "l3"}, []PM{nil, {"p": 1}, {"p": 17}})
				ts = append(ts, rampTask(name+"ramp", 45, 9, func(i int) any { return i % 23 }, index, o))
				ts = append(ts, rampTask(name+"ramp-300", 300, 211, func(i int) any { return i % 23 }, index, o))
				lo := obsFind([]string{"A"}, []string{"x", "y"}, []PM{nil, {"p": 1}, {"p": 3}, {"q": 1}})
				var ixl func(w *World)
				if ix >= 0 {
					ixl = func(w *World) { index(w, 0) }
				}
				ts = append(ts, loopTasks(name, 1, dt(th, 100, 300), 24, 1, ixl, lo, lo)...)
				ts = append(ts, loopTasks(name, 2, dt(th, 20, 60), 16, 4, ixl, lo, lo)...)
				if th {
					ts = append(ts, loopTasks(name, 3, 12, 8, 12, ixl, lo, lo)...)
				}
				var ixn func(w *World, n int)
				if ix >= 0 {
					ixn = func(w *World, n int) {
						for i := 0; i < n; i += 2 {
							w.G.AddNodePropertyIndex(nameK(i), lpg.IndexType(ix))
							w.G.AddEdgePropertyIndex(nameK(n-1-i), lpg.IndexType(ix))
						}
					}
				}
				ts = append(ts, nameTasks(name, nameSizes[:len(nameSizes)-dt(th, 4, 1)], ixn, obsFindNames)...)
				ts = append(ts, hubTasks(name, ixl, lo)...)
			}
			ts = append(ts, similarObserved("similar-names", everyIndex[:2], func(s, t string) func(w *World) {
				return obsFind([]string{s, t}, []string{s, t}, []PM{{s: t}, {t: s, "val": s}})
			})...)
			ts = append(append(ts, churnTasks("churn", everyIndex[1:2], obsFind([]string{"A", "B"}, []string{"x", "y"}, []PM{{"p": 1}, {"p": 2, "q": 1}}))...), vastTask("vast", vastFind(-1))...)
			return append(ts, oddValueTasks(th)...)
		},
	})
}

const maxInt = int(^uint(0) >> 1)

func pt2(v any) any { return &nativePtr{v} }
