package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ssWorld: some string sets that may have been made from one another, and
// their reference contents as sorted lists.
type ssWorld struct {
	s []lpg.StringSet
	m [][]string
	k []*lpg.StringSet // results of the chaining methods, must point to the set
}

var ssUniverse = []string{"a", "b", ""}

func union(a, b []string) []string { return normLabels(append(append([]string{}, a...), b...)) }

func minus(a, b []string) []string {
	out := []string{}
	for _, x := range a {
		if !hasStr(b, x) {
			out = append(out, x)
		}
	}
	return out
}

type ssOp struct {
	name string
	do   func(w *ssWorld)
}

func ssOps(n int, th bool) []ssOp {
	var ops []ssOp
	add := func(name string, do func(w *ssWorld)) { ops = append(ops, ssOp{name, do}) }
	lists := [][]string{nil, {"a"}, {"b"}, {"", "a"}, {"a", "b", "a"}}
	if th {
		lists = append(lists, []string{""}, []string{"b", "b"}, []string{"", "b", "a"})
	}
	for i := 0; i < n; i++ {
		i := i
		chain := func(w *ssWorld, r *lpg.StringSet) {
			if r != &w.s[i] {
				fail("the method does not return its receiver")
			}
		}
		add(fmt.Sprintf("s%d = StringSet{}", i), func(w *ssWorld) { w.s[i], w.m[i] = lpg.StringSet{}, []string{} })
		for _, l := range lists {
			l := l
			add(fmt.Sprintf("s%d = NewStringSet(%q), then the arguments are overwritten", i, l), func(w *ssWorld) {
				args := append(make([]string, 0, 4), l...)
				w.s[i], w.m[i] = lpg.NewStringSet(args...), normLabels(l)
				for k := range args[:cap(args)] {
					args[:cap(args)][k] = "overwritten"
				}
			})
			add(fmt.Sprintf("s%d.Add(%q)", i, l), func(w *ssWorld) {
				args := append(make([]string, 0, 4), l...)
				chain(w, w.s[i].Add(args...))
				w.m[i] = union(w.m[i], l)
				for k := range args {
					args[k] = "overwritten"
				}
			})
			add(fmt.Sprintf("s%d.Remove(%q)", i, l), func(w *ssWorld) {
				chain(w, w.s[i].Remove(l...))
				w.m[i] = minus(w.m[i], l)
			})
			doc := js(append([]string{}, l...))
			add(fmt.Sprintf("s%d read from JSON %s", i, doc), func(w *ssWorld) {
				if err := json.Unmarshal([]byte(doc), &w.s[i]); err != nil {
					fail("reading %s fails: %v", doc, err)
				}
				w.m[i] = normLabels(l)
			})
		}
		add(fmt.Sprintf("s%d.Add(a).Remove(b).Add(b)", i), func(w *ssWorld) {
			chain(w, w.s[i].Add("a").Remove("b").Add("b"))
			w.m[i] = union(w.m[i], []string{"a", "b"})
		})
		add(fmt.Sprintf("s%d.Add(s%d.Slice()...)", i, i), func(w *ssWorld) { chain(w, w.s[i].Add(w.s[i].Slice()...)) })
		add(fmt.Sprintf("s%d.Remove(s%d.Slice()...)", i, i), func(w *ssWorld) { chain(w, w.s[i].Remove(w.s[i].Slice()...)); w.m[i] = []string{} })
		for j := 0; j < n; j++ {
			j := j
			add(fmt.Sprintf("s%d = s%d.Clone()", i, j), func(w *ssWorld) { w.s[i], w.m[i] = w.s[j].Clone(), w.m[j] })
			add(fmt.Sprintf("s%d = s%d", i, j), func(w *ssWorld) { w.s[i], w.m[i] = w.s[j], w.m[j] })
			add(fmt.Sprintf("s%d.AddSet(s%d)", i, j), func(w *ssWorld) {
				chain(w, w.s[i].AddSet(w.s[j]))
				w.m[i] = union(w.m[i], w.m[j])
			})
			if i != j {
				add(fmt.Sprintf("s%d read from the JSON of s%d", i, j), func(w *ssWorld) {
					b, err := json.Marshal(w.s[j])
					if err == nil {
						err = json.Unmarshal(b, &w.s[i])
					}
					if err != nil {
						fail("%v", err)
					}
					w.m[i] = w.m[j]
					for k := range b {
						b[k] = 'x'
					}
				})
				add(fmt.Sprintf("s%d = NewStringSet(s%d.SortedSlice()...)", i, j), func(w *ssWorld) {
					w.s[i], w.m[i] = lpg.NewStringSet(w.s[j].SortedSlice()...), w.m[j]
				})
			}
		}
	}
	return ops
}

func (w *ssWorld) observe(c *Ctx) {
	bad := func(format string, args ...any) { fail("%s\nexpected contents: %q", fmt.Sprintf(format, args...), w.m) }
	eq := func(got, want any, format string, args ...any) {
		c.st.Checks++
		if got != want {
			bad("%s is %v, expected %v", fmt.Sprintf(format, args...), got, want)
		}
	}
	for round := 0; round < 2; round++ {
		for i := range w.s {
			s, m := &w.s[i], w.m[i]
			eq(s.Len(), len(m), "s%d.Len()", i)
			sl := s.Slice()
			got := append([]string{}, sl...)
			sort.Strings(got)
			if !sameStrs(got, m) {
				bad("s%d.Slice() is %q", i, sl)
			}
			if so := s.SortedSlice(); !sameStrs(so, m) {
				bad("s%d.SortedSlice() is %q", i, so)
			}
			parts := strings.Split(s.String(), ", ")
			if len(m) == 0 {
				parts = parts[:0]
				eq(s.String(), "", "s%d.String()", i)
			}
			sort.Strings(parts)
			if !sameStrs(parts, m) {
				bad("s%d.String() is %q", i, s.String())
			}
			for _, x := range append([]string{"zz", "A"}, ssUniverse...) {
				eq(s.Has(x), hasStr(m, x), "s%d.Has(%q)", i, x)
			}
			for _, sub := range subsets(ssUniverse) {
				for _, l := range [][]string{sub, append(append([]string{}, sub...), sub...), append([]string{"zz"}, sub...)} {
					any := false
					for _, x := range l {
						any = any || hasStr(m, x)
					}
					eq(s.HasAny(l...), any, "s%d.HasAny(%q)", i, l)
					eq(s.HasAll(l...), hasAll(m, l), "s%d.HasAll(%q)", i, l)
				}
			}
			b, err := json.Marshal(*s)
			if err != nil {
				bad("marshaling s%d fails: %v", i, err)
			}
			var l []string
			if err := json.Unmarshal(b, &l); err != nil {
				bad("s%d marshals to %s", i, b)
			}
			sort.Strings(l)
			if l == nil || !sameStrs(l, m) {
				bad("s%d marshals to %s", i, b)
			}
			var back lpg.StringSet
			if err := json.Unmarshal(b, &back); err != nil || !back.IsEqual(*s) {
				bad("s%d does not survive a JSON round trip: %s, %v", i, b, err)
			}
			for j := range w.s {
				t, n := w.s[j], w.m[j]
				eq(s.IsEqual(t), sameStrs(m, n), "s%d.IsEqual(s%d)", i, j)
				eq(s.HasAllSet(t), hasAll(m, n), "s%d.HasAllSet(s%d)", i, j)
				any := false
				for _, x := range n {
					any = any || hasStr(m, x)
				}
				eq(s.HasAnySet(t), any, "s%d.HasAnySet(s%d)", i, j)
			}
			// what the caller does to results does not matter
			for k := range sl {
				sl[k] = "overwritten"
			}
			so := s.SortedSlice()
			for k := range so {
				so[k] = "overwritten"
			}
			for k := range b {
				b[k] = 'x'
			}
			cl := s.Clone()
			cl.Add("zz")
			cl.Remove("a")
			back.Add("zz")
			cl2 := *s
			cl2.Remove("a", "b")
			cl2.Add("yy")
			cl3 := s.Clone()
			cl3.AddSet(lpg.NewStringSet("xx"))
			if err := json.Unmarshal([]byte(`["ww"]`), &cl2); err != nil {
				bad("%v", err)
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C23",
		Bounds: "all sequences of about 85 operations on 2 string sets (constructors, Add, Remove, AddSet, clones, assignments, JSON; the set itself as argument) and of 150 operations on 3 sets, until no new states appear (thorough: with more arguments), states merged by their memory shape; every query over all subsets of 3 strings in each state, map iteration starting at each of 8 positions; growing and shrinking to 40 strings with clones at every size; all pairs of about 170 special and similar strings; all queries between a set of every size up to 40 (and up to 300) built in 4 ways; every operation on copies of sets of up to 1025 strings and sets that differ in one or two strings; sets of 65606 strings",
		Assume: []string{"The member map is not edited directly."},
		Tasks: func(th bool) []Task {
			var ts []Task
			for _, n := range []int{2, 3} {
				n := n
				ops := ssOps(n, th)
				shards := 8
				for sh := 0; sh < shards; sh++ {
					sh := sh
					ts = append(ts, Task{Name: fmt.Sprintf("%d-sets/%d", n, sh), Run: func(c *Ctx) {
						depth := 40 // until no new states appear
						type hist []int
						build := func(h hist, off int) *ssWorld {
							mapDefault(off)
							w := &ssWorld{s: make([]lpg.StringSet, n), m: make([][]string, n)}
							for i := range w.m {
								w.m[i] = []string{}
							}
							for _, o := range h {
								ops[o].do(w)
							}
							return w
						}
						seen := map[fpKey]bool{}
						frontier := []hist{{}}
						for d := 0; d < depth && len(frontier) > 0; d++ {
							var next []hist
							for _, h := range frontier {
								for o := range ops {
									if d == 0 && o%shards != sh {
										continue
									}
									nh := append(append(hist{}, h...), o)
									c.st.Transitions++
									fresh := false
									ok := c.Case(func() string {
										var s []string
										for _, x := range nh {
											s = append(s, ops[x].name)
										}
										return strings.Join(s, "; ")
									}, func() {
										defer mapDefault(0)
										w := build(nh, 0)
										k := fingerprint("", w.s, w.m)
										if seen[k] {
											return
										}
										w.observe(c)
										for off := 1; off < 8; off++ {
											build(nh, off).observe(c)
										}
										seen[k] = true
										fresh = true
									})
									if ok && fresh {
										c.st.States++
										c.st.Traces++
										next = append(next, nh)
									}
								}
							}
							frontier = next
						}
					}})
				}
			}
			ts = append(ts, Task{Name: "ramp", Run: func(c *Ctx) {
				for off := 0; off < 8; off++ {
					for _, stride := range []int{1, 7} {
						off, stride := off, stride
						c.Case(func() string {
							return fmt.Sprintf("40 strings added and removed with stride %d, with a clone taken at every size, map iteration starting at %d", stride, off)
						}, func() {
							defer mapDefault(0)
							mapDefault(off)
							var cur lpg.StringSet
							var m []string
							var clones []lpg.StringSet
							var contents [][]string
							check := func(s lpg.StringSet, m []string, what string) {
								c.st.Checks++
								if got := s.SortedSlice(); !sameStrs(got, m) {
									fail("%s is %q, expected %q", what, got, m)
								}
								b, _ := json.Marshal(s)
								var back lpg.StringSet
								if json.Unmarshal(b, &back) != nil || !back.IsEqual(s) || !s.IsEqual(back) || !s.HasAllSet(back) || s.Len() != len(m) || !s.HasAll(m...) {
									fail("%s (%q) does not survive a JSON round trip as %s", what, m, b)
								}
							}
							for k := 0; k < 80; k++ {
								x := fmt.Sprint("s", k*stride%40)
								clones = append(clones, cur.Clone())
								contents = append(contents, m)
								switch {
								case k >= 40:
									cur.Remove(x, "none")
									m = minus(m, []string{x})
								case k%2 == 0:
									cur.Add(x, x)
									m = union(m, []string{x})
								default:
									cur.AddSet(lpg.NewStringSet(x))
									m = union(m, []string{x})
								}
								check(cur, m, "the set")
								clones[k/2].Add("extra")
								contents[k/2] = union(contents[k/2], []string{"extra"})
								for i := range clones {
									check(clones[i], contents[i], fmt.Sprintf("clone %d", i))
								}
								c.st.States++
								c.st.Transitions++
							}
							c.st.Traces++
						})
					}
				}
			}})
			return append(ts, append(hugeStringSetTasks(th), append(setSizeTasks(th), vastTask("vast", vastStrings)...)...)...)
		},
	})
}
