package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// val is the reference notion of a value: an integer, a string or a list.
type val struct {
	kind byte // 'i', 's', 'l', or another letter for an unsupported kind
	i    int
	s    string
	l    []val
	raw  any // unsupported kinds
}

func vi(i int) val    { return val{kind: 'i', i: i} }
func vs(s string) val { return val{kind: 's', s: s} }
func vl(l ...val) val { return val{kind: 'l', l: l} }
func (v val) String() string {
	switch v.kind {
	case 'i':
		return fmt.Sprint(v.i)
	case 's':
		return fmt.Sprintf("%q", v.s)
	case 'l':
		var s []string
		for _, x := range v.l {
			s = append(s, x.String())
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	return fmt.Sprintf("%T(%v)", v.raw, v.raw)
}

// cmp is the reference order; ok is false if the kinds differ where it matters.
func (v val) cmp(w val) (c int, ok bool) {
	if v.kind != w.kind {
		return 0, false
	}
	switch v.kind {
	case 'i':
		switch {
		case v.i < w.i:
			return -1, true
		case v.i > w.i:
			return 1, true
		}
		return 0, true
	case 's':
		return strings.Compare(v.s, w.s), true
	}
	for k := 0; k < len(v.l) && k < len(w.l); k++ {
		c, ok := v.l[k].cmp(w.l[k])
		if !ok || c != 0 {
			return c, ok
		}
	}
	switch {
	case len(v.l) < len(w.l):
		return -1, true
	case len(v.l) > len(w.l):
		return 1, true
	}
	return 0, true
}

// vrep is one representation of a value.
type vrep struct {
	v    val
	x    any
	name string
}

// reps lists the representations of the value: every list type that can hold
// it, and wrappers at the outside and around list items.
func (v val) reps(full bool) []any {
	var plain []any
	switch v.kind {
	case 'i':
		plain = []any{v.i}
	case 's':
		plain = []any{v.s}
	case 'l':
		ints, strs := []int{}, []string{}
		for _, x := range v.l {
			if x.kind == 'i' {
				ints = append(ints, x.i)
			}
			if x.kind == 's' {
				strs = append(strs, x.s)
			}
		}
		if len(v.l) > 0 && len(ints) == len(v.l) {
			plain = append(plain, ints)
		}
		if len(v.l) > 0 && len(strs) == len(v.l) {
			plain = append(plain, strs)
		}
		// []any with all combinations of item representations
		combos := [][]any{{}}
		for k, x := range v.l {
			rs := x.reps(full && k == 0)
			if len(rs) > 4 {
				rs = rs[:4]
			}
			var next [][]any
			for _, c := range combos {
				for _, r := range rs {
					next = append(next, append(append([]any{}, c...), r))
				}
			}
			combos = next
		}
		if !full && len(combos) > 3 {
			combos = combos[:3]
		}
		for _, c := range combos {
			plain = append(plain, c)
		}
	default:
		return []any{v.raw, native{v.raw}}
	}
	out := plain
	for k, p := range plain {
		out = append(out, native{p})
		if full && k < 2 {
			p := p
			out = append(out, &nativePtr{p}, native{&nativePtr{native{p}}})
		}
	}
	return out
}

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

// listsOf are all lists of the items up to a length.
func listsOf(items []val, maxLen int) []val {
	out := []val{}
	cur := [][]val{{}}
	for n := 0; ; n++ {
		for _, c := range cur {
			out = append(out, vl(c...))
		}
		if n == maxLen {
			return out
		}
		var next [][]val
		for _, c := range cur {
			for _, it := range items {
				next = append(next, append(append([]val{}, c...), it))
			}
		}
		cur = next
	}
}

func allReps(vs []val, full bool) []vrep {
	var out []vrep
	for _, v := range vs {
		for _, x := range v.reps(full) {
			out = append(out, vrep{v, x, valStr(x)})
		}
	}
	return out
}

func compare(a, b any) (c int, panicked bool) {
	panicked = panics(func() { c = lpg.ComparePropertyValue(a, b) })
	return sign(c), panicked
}

func init() {
	register(&Prop{
		ID:     "C22",
		Bounds: "all pairs of representations of: 9 integers, 13 strings, all lists of up to 5 items over 3 integers and over 3 strings (thorough: 6), all nested lists of up to 3 lists of up to 2 items, lists of lists of lists of up to 2 items; as []int, []string, []any and wrapped at every level (one, two and three deep); all triples of representations of a smaller set; all pairs of values of different kinds (7 kinds, also as first differing list items); lists and strings of every length up to 24 and those around powers of two up to 128 (thorough: 300) with a difference at every position, prefixes and extensions; values nested and wrapped up to 40 deep; all pairs of about 170 special and similar strings, and of all lists of up to 2 of 23 special strings; lists of up to 2049 elements that differ at selected positions; lists of 65606 values",
		Assume: []string{"Empty lists of a typed representation, and lists whose items of different kinds come after a difference, are compared with lists of the same item kind only."},
		Tasks: func(th bool) []Task {
			var ts []Task
			ints := []val{vi(0), vi(1), vi(-1), vi(2), vi(10), vi(9), vi(-10), vi(math.MaxInt), vi(math.MinInt)}
			strs := []val{vs(""), vs("a"), vs("b"), vs("aa"), vs("ab"), vs("A"), vs("9"), vs("10"), vs("\x00"), vs("a\x00"), vs("é"), vs("\xff"), vs("~")}
			i3, s3 := []val{vi(-1), vi(1), vi(10)}, []val{vs(""), vs("a"), vs("ab")}
			n := dt(th, 5, 6)
			nested := listsOf(listsOf([]val{vi(1), vi(2)}, 2), 3)
			nestedS := listsOf(listsOf([]val{vs("a"), vs("b")}, 1), 3)
			deep := listsOf(listsOf(listsOf([]val{vi(1), vi(2)}, 1), 2), 2)
			group := func(name string, rs []vrep, shards int) {
				for s := 0; s < shards; s++ {
					s := s
					ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", name, s), Run: func(c *Ctx) {
						for i, a := range rs {
							if i%shards != s {
								continue
							}
							c.Case(func() string { return fmt.Sprintf("%s compared with all of %s", a.name, name) }, func() {
								for _, b := range rs {
									want, ok := a.v.cmp(b.v)
									if !ok {
										panic("bad test values")
									}
									got, p := compare(a.x, b.x)
									if p {
										fail("comparing %s with %s panics", a.name, b.name)
									}
									if got != want {
										fail("comparing %s with %s gives %d, expected %d", a.name, b.name, got, want)
									}
									c.st.Traces++
									c.st.Transitions++
									c.st.Checks++
								}
							})
							c.st.States++
						}
					}})
				}
			}
			group("integers", allReps(ints, true), 1)
			group("strings", allReps(strs, true), 1)
			group("integer lists", allReps(listsOf(i3, n), false), 8)
			group("string lists", allReps(listsOf(s3, n), false), 8)
			group("short integer lists", allReps(listsOf(i3, 2), true), 2)
			group("short string lists", allReps(listsOf(strs[:5], 2), true), 4)
			group("nested lists", allReps(nested, th), 8)
			group("nested string lists", allReps(nestedS, true), 2)
			group("deep lists", allReps(deep, false), 8)
			// triples, on the answers alone
			for gi, rs := range [][]vrep{allReps(ints[:4], true), allReps(strs[:5], true), allReps(listsOf(i3[:2], 2), false), allReps(listsOf(s3[1:], 2), false), allReps(listsOf(listsOf([]val{vi(1)}, 2), 2), false)} {
				gi, rs := gi, rs
				ts = append(ts, Task{Name: fmt.Sprintf("triples/%d", gi), Run: func(c *Ctx) {
					for _, a := range rs {
						c.Case(func() string { return fmt.Sprintf("all triples that begin with %s", a.name) }, func() {
							for _, b := range rs {
								ab, _ := compare(a.x, b.x)
								ba, _ := compare(b.x, a.x)
								if ab != -ba {
									fail("comparing %s with %s gives %d, the other way round it gives %d", a.name, b.name, ab, ba)
								}
								for _, d := range rs {
									bd, _ := compare(b.x, d.x)
									ad, _ := compare(a.x, d.x)
									if ab <= 0 && bd <= 0 && (ad > 0 || ad == 0 && (ab < 0 || bd < 0)) {
										fail("the order of %s, %s and %s is not transitive: %d %d %d", a.name, b.name, d.name, ab, bd, ad)
									}
									c.st.Traces++
									c.st.Transitions++
								}
							}
							if aa, p := compare(a.x, a.x); p || aa != 0 {
								fail("%s is not equal to itself", a.name)
							}
						})
						c.st.States++
					}
				}})
			}
			// different kinds
			ts = append(ts, Task{Name: "kinds", Run: func(c *Ctx) {
				kinds := [][]val{{vi(0), vi(1)}, {vs(""), vs("1"), vs("[1]")}, {vl(vi(1)), vl(vi(1), vi(2))}, {vl(vs("1"))}, {vl(vl(vi(1)))}, {{kind: 'n', raw: nil}}, {{kind: 'b', raw: true}}, {{kind: 'f', raw: 1.0}}, {{kind: 'm', raw: map[string]any{}}}}
				for ki, k1 := range kinds {
					for kj, k2 := range kinds {
						if ki == kj {
							continue
						}
						for _, a := range allReps(k1, true) {
							c.Case(func() string { return fmt.Sprintf("%s compared with values of other kinds", a.name) }, func() {
								for _, b := range allReps(k2, true) {
									check := func(x, y any, how string) {
										if got, p := compare(x, y); !p {
											fail("comparing %s with %s%s gives %d, it should panic", a.name, b.name, how, got)
										}
										c.st.Traces++
										c.st.Transitions++
										c.st.Checks++
									}
									check(a.x, b.x, "")
									check([]any{a.x}, []any{b.x}, " as list items")
									check([]any{5, a.x, 1}, []any{5, b.x}, " as list items after an equal one")
									if a.v.kind == 'i' {
										check([]int{a.v.i}, []any{b.x}, " as list items")
										check([]any{b.x}, []int{a.v.i}, " as list items")
									}
									if a.v.kind == 's' {
										check([]string{"q", a.v.s}, []any{"q", b.x}, " as second list items")
										check([]any{"q", b.x}, []string{"q", a.v.s}, " as second list items")
									}
								}
							})
							c.st.States++
						}
					}
				}
			}})
			return append(append(ts, longListTasks(th)...), append(nastyCompareTasks(th), append(veryLongListTasks(th), vastTask("vast", vastValues)...)...)...)
		},
	})
}
