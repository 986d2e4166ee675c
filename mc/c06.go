package main

import (
	"fmt"
	"sort"

	"github.com/cloudprivacylabs/lpg/v2"
)

func sortedInts(l []int) []int {
	o := append([]int{}, l...)
	sort.Ints(o)
	return o
}

// obsIterators drains every iterator: alone, twice, and in parts (C06).
func obsIterators(w *World) {
	for _, f := range w.factories() {
		f := f
		w.drain(&f)
	}
}

func (w *World) drain(f *fac) {
	n := w.drainFrom(f, 0)
	for k := 1; k <= n; k++ {
		w.drainFrom(f, k)
	}
}

// drainFrom advances an iterator k steps by hand and reads the rest with NodeSlice/EdgeSlice.
func (w *World) drainFrom(f *fac, k int) int {
	it := f.make()
	if it == nil {
		fail("%s is nil", f.name)
	}
	size := it.MaxSize()
	var got []int
	for i := 0; i < k; i++ {
		if !it.Next() {
			fail("%s ends after %d elements in a second run", f.name, i)
		}
		got = append(got, w.current(f, it))
	}
	if f.edge {
		for _, e := range lpg.EdgeSlice(it.(lpg.EdgeIterator)) {
			got = append(got, w.edgeIdx(e))
		}
	} else if ni, ok := it.(lpg.NodeIterator); ok {
		for _, e := range lpg.NodeSlice(ni) {
			got = append(got, w.nodeIdx(e))
		}
	} else {
		for it.Next() {
			got = append(got, w.current(f, it))
		}
	}
	for j := 0; j < 3; j++ {
		if it.Next() {
			fail("%s yields another element after it was drained", f.name)
		}
	}
	if size < -1 || size != -1 && size < len(got) {
		fail("%s: the size estimate is %d but %d elements were returned", f.name, size, len(got))
	}
	w.verify(f, got, "%d elements by Next, the rest as a slice", k)
	return len(got)
}

// runSched advances the iterators of fs in the order given by sched (indexes
// into fs); the first step of each creates it.
func (w *World) runSched(fs []*fac, sched []int) {
	its := make([]lpg.Iterator, len(fs))
	got := make([][]int, len(fs))
	done := make([]bool, len(fs))
	size := make([]int, len(fs))
	for _, i := range sched {
		if its[i] == nil {
			its[i] = fs[i].make()
			size[i] = its[i].MaxSize()
			continue
		}
		if its[i].Next() {
			if done[i] {
				fail("%s yields another element after it was drained", fs[i].name)
			}
			got[i] = append(got[i], w.current(fs[i], its[i]))
		} else {
			done[i] = true
		}
	}
	for i := range fs {
		if !done[i] {
			fail("%s does not end after %d elements", fs[i].name, len(got[i]))
		}
		if size[i] != -1 && size[i] < len(got[i]) {
			fail("%s: the size estimate is %d but %d elements were returned", fs[i].name, size[i], len(got[i]))
		}
		w.verify(fs[i], got[i], "interleaved with others")
	}
}

// interleavings calls f with every merge of counts[0] zeros, counts[1] ones, ...
func interleavings(counts []int, f func(s []int)) int64 {
	total := 0
	for _, c := range counts {
		total += c
	}
	left := append([]int{}, counts...)
	s := make([]int, 0, total)
	var n int64
	var rec func()
	rec = func() {
		if len(s) == total {
			n++
			f(s)
			return
		}
		for i := range left {
			if left[i] > 0 {
				left[i]--
				s = append(s, i)
				rec()
				s = s[:len(s)-1]
				left[i]++
			}
		}
	}
	rec()
	return n
}

func (w *World) steps(f *fac) int {
	n := len(f.want) + 3 // create, elements, end, end again
	if f.loop {
		for _, x := range f.want {
			if w.M.E[x].From == w.M.E[x].To {
				n++
			}
		}
	}
	return n
}

func init() {
	register(&Prop{
		ID: "C06",
		Bounds: "all interleavings of the creation and every Next of all pairs of iterators (39-165 iterator kinds per graph) over 21 graphs; of triples of the graph-wide iterators over the smaller graphs; " +
			"every iterator drained alone, and from every intermediate position into a slice, in every state of all histories over 4 alphabets to depth 3-4 (quick) / 4-5 (thorough), under 2 map orders; every iterator over 8 parametrised families of graphs of 65 to 300 elements; a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Tasks: func(th bool) []Task {
			var ts []Task
			ob := func(w *wx) { obsIterators(w.World) }
			var us []*Universe
			for _, u := range historyUniverses(th) {
				switch u.Name {
				case "mixed", "edges-removed", "node-labels":
					u.Depth -= 1
					us = append(us, u)
				case "edges":
					u.Depth -= 2
					us = append(us, u)
				case "from-dense":
					u.Depth -= 2
					u.Shards = 0
					us = append(us, u)
				}
			}
			ts = append(ts, uTasks(us, "drain-", []int{0, 3}, ob)...)
			ts = append(ts, rampTask("ramp-30", 30, 29, intKey, nil, obsIterators))
			ts = append(ts, hugeIteratorTasks(th)...)
			for _, z := range zoo(indexKinds) {
				z := z
				const nsh = 2
				for sh := 0; sh < nsh; sh++ {
					sh := sh
					ts = append(ts, Task{Name: fmt.Sprintf("pairs-%s/%d", z.Name, sh), Run: func(c *Ctx) {
						fs := z.Build().factories()
						limit := dt(c.thorough, 800, 200000)
						for i := range fs {
							for j := i; j < len(fs); j++ {
								if (i+j)%nsh != sh {
									continue
								}
								c.Case(func() string {
									return fmt.Sprintf("graph %s: all interleavings of %s and %s", z.Name, fs[i].name, fs[j].name)
								}, func() {
									w := z.Build()
									fs := w.factories()
									pair := []*fac{&fs[i], &fs[j]}
									cnt := []int{w.steps(pair[0]), w.steps(pair[1])}
									// long ones without the second read past the end
									for k := 0; binom(cnt[0]+cnt[1], cnt[0]) > limit && k < 2; k++ {
										cnt[k]--
									}
									if binom(cnt[0]+cnt[1], cnt[0]) > limit {
										// lockstep and nested schedules only
										for _, s := range coarse(cnt) {
											w.runSched(pair, s)
											c.st.Traces++
										}
									} else {
										c.st.Traces += interleavings(cnt, func(s []int) { w.runSched(pair, s); c.st.Transitions += int64(len(s)) })
									}
									c.st.States++
									c.st.Checks += w.checks
								})
							}
						}
					}})
				}
				if z.Name[:3] == "emp" || z.Name[:3] == "one" || z.Name[:3] == "loo" || z.Name[:3] == "pai" {
					ts = append(ts, Task{Name: "triples-" + z.Name, Run: func(c *Ctx) {
						fs := z.Build().factories()
						for i := range fs {
							if i > 22 {
								break
							}
							for j := i; j < len(fs) && j <= 22; j++ {
								c.Case(func() string {
									return fmt.Sprintf("graph %s: all interleavings of two iterators %s and one %s", z.Name, fs[i].name, fs[j].name)
								}, func() {
									w := z.Build()
									fs := w.factories()
									tr := []*fac{&fs[i], &fs[i], &fs[j]}
									cnt := []int{len(tr[0].want) + 2, len(tr[1].want) + 2, len(tr[2].want) + 2}
									if cnt[0]+cnt[1]+cnt[2] > dt(c.thorough, 9, 12) {
										return
									}
									c.st.Traces += interleavings(cnt, func(s []int) { w.runSched(tr, s); c.st.Transitions += int64(len(s)) })
									c.st.States++
									c.st.Checks += w.checks
								})
							}
						}
					}})
				}
			}
			return append(ts, vastTask("vast", vastIterators)...)
		},
	})
}

// coarse schedules for long iterators: one is drained at each position of the
// other, and lockstep.
func coarse(cnt []int) [][]int {
	var out [][]int
	for a := 0; a < 2; a++ {
		b := 1 - a
		for at := 0; at <= cnt[a]; at++ {
			var s []int
			for i := 0; i < at; i++ {
				s = append(s, a)
			}
			for i := 0; i < cnt[b]; i++ {
				s = append(s, b)
			}
			for i := at; i < cnt[a]; i++ {
				s = append(s, a)
			}
			out = append(out, s)
		}
	}
	var s []int
	for i := 0; i < cnt[0] || i < cnt[1]; i++ {
		for a := 0; a < 2; a++ {
			if i < cnt[a] {
				s = append(s, a)
			}
		}
	}
	return append(out, s)
}

func binom(n, k int) int {
	r := 1
	for i := 1; i <= k; i++ {
		r = r * (n - k + i) / i
		if r > 1<<40 {
			return r
		}
	}
	return r
}
