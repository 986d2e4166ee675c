package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// One odd element, at every place of something long: a chain in which one edge
// or node does not satisfy the conditions, a pattern in which one element asks
// for something else, a name that comes back after any distance.

var (
	oddNK = []NK{{L: []string{"S"}, P: PM{"p": 1}}, {L: []string{"A"}, P: PM{"p": 1}}, {L: []string{"T"}, P: PM{"p": 1}}, {L: []string{"B"}, P: PM{"p": 1}}, {L: []string{"A"}, P: PM{"p": 2}}, {L: []string{"A"}}}
	oddEK = []EK{{L: "x", P: PM{"p": 1}}, {L: "y", P: PM{"p": 1}}, {L: "x", P: PM{"p": 2}}, {L: "x"}}
)

var oddities = []string{"nothing", "another label", "another value", "no value", "reversed", "node with another label", "node with another value", "node without a value", "parallel edge", "loop"}

// oddChain is a chain of n edges, with something odd at place k.
func oddChain(n, k, what int) *GSpec {
	g := &GSpec{NKs: oddNK, EKs: oddEK}
	for i := 0; i <= n; i++ {
		g.Nodes = append(g.Nodes, 1)
	}
	g.Nodes[0], g.Nodes[n] = 0, 2
	for i := 0; i < n; i++ {
		g.Edges = append(g.Edges, GE{i, i + 1, 0})
	}
	switch what {
	case 1, 2, 3:
		g.Edges[k].Kind = what
	case 4:
		g.Edges[k].From, g.Edges[k].To = g.Edges[k].To, g.Edges[k].From
	case 5, 6, 7:
		if k > 0 {
			g.Nodes[k] = what - 2
		}
	case 8:
		g.Edges = append(g.Edges, GE{k, k + 1, 0})
	case 9:
		g.Edges = append(g.Edges, GE{k, k, 0})
	}
	return g
}

func oddSizes(th bool) []int { return wideSizes(dt(th, 12, 20), dt(th, 34, 70)) }

func oddPatternTasks(name string, th bool, pats func(n, k int) []Pat) []Task {
	return scaleTasks("odd-"+name, 8, oddSizes(th), func(c *Ctx, n int) {
		for what := range oddities {
			for k := 0; k < n; k++ {
				if what == 0 && k > 0 {
					break
				}
				for vi, v := range wideVariants {
					if n > 12 && (vi+k)%3 != 0 {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("a chain of %d edges, at place %d %s (%s), patterns", n, k, oddities[what], v)
					}, func() {
						w := v.world()
						oddChain(n, k, what).fill(w, nil, nil)
						addNoise(w, v.noise)
						for _, p := range pats(n, k) {
							want, ok := w.M.refMatchesMax(p, nil, 600)
							if !ok {
								continue
							}
							w.checkPattern(p, nil, want)
							c.st.Traces++
							c.st.Transitions += int64(len(want)) + 1
						}
						c.st.States++
						c.st.Checks += w.checks
					})
				}
			}
		}
	})
}

// C09: fixed patterns over the whole chain, one of whose elements asks for
// something else.
func oddFixed(n, k int) []Pat {
	s, t := PI{L: []string{"S"}}, PI{L: []string{"T"}}
	rel := func(e, m PI) Pat {
		p := longPattern(n, e, s, t)
		for i := 2; i < len(p)-1; i += 2 {
			p[i] = m
		}
		return p
	}
	cond := func(d int) Pat { return rel(PI{Dir: d, Min: 1, Max: 1, L: []string{"x"}}, PI{L: []string{"A"}}) }
	prop := rel(PI{Dir: 1, Min: 1, Max: 1, P: PM{"p": 1}}, PI{P: PM{"p": 1}})
	ps := []Pat{cond(1), prop, mirrorPat(cond(1)), mirrorPat(prop)}
	if n <= 6 {
		ps = append(ps, cond(0))
	}
	a, b, d := cond(1), cond(1), cond(1)
	a[2*k+1].L = []string{"y"}
	b[2*k+1].Dir = -1
	d[2*k+1].L, d[2*k+1].P = nil, PM{"p": 2}
	ps = append(ps, a, b, d, mirrorPat(b))
	if k > 0 {
		e, f := cond(1), prop.clone()
		e[2*k].L = []string{"B"}
		f[2*k].P = PM{"p": 2}
		ps = append(ps, e, f)
	}
	return ps
}

func (p Pat) clone() Pat { return append(Pat{}, p...) }

func mirrorPat(p Pat) Pat {
	var out Pat
	for i := len(p) - 1; i >= 0; i-- {
		x := p[i]
		x.Dir = -x.Dir
		out = append(out, x)
	}
	return out
}

// C10: variable-length relationships.
func oddVariable(n, k int) []Pat {
	s, t, any := PI{L: []string{"S"}}, PI{L: []string{"T"}}, PI{}
	x := func(dir, min, max int) PI { return PI{Dir: dir, Min: min, Max: max, L: []string{"x"}} }
	px := func(dir, min, max int) PI { return PI{Dir: dir, Min: min, Max: max, P: PM{"p": 1}} }
	ps := []Pat{
		{s, x(1, 1, -1), any}, {s, px(1, 1, -1), any}, {s, x(1, -1, -1), t}, {s, px(1, n, n+1), t}, {s, x(0, 1, -1), any}, {s, x(0, -1, -1), t},
		{s, x(1, k+1, k+2), any}, {s, x(1, 1, k+1), any, x(1, 1, -1), t},
	}
	ps = append(ps, mirrorPat(ps[0]), mirrorPat(ps[1]), mirrorPat(ps[2]), mirrorPat(ps[7]))
	if k == 0 || k == n/2 {
		ps = append(ps, Pat{any, x(1, n-1, n), any}, Pat{any, px(-1, n-1, -1), any})
	}
	return ps
}

// C11: a name comes back after any distance, around a cycle.
func oddNameTasks(th bool) []Task {
	var sizes []int
	for m := 1; m <= dt(th, 14, 20); m++ {
		sizes = append(sizes, m)
	}
	return scaleTasks("odd-names", 4, append(sizes, 16, 17, 31, 32, 33), func(c *Ctx, m int) {
		for l := 1; l <= 6; l++ {
			for vi, v := range wideVariants {
				if m > 8 && (vi+m+l)%3 != 0 {
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("a cycle of %d edges (%s), patterns of %d relationships with one name at two places", l, v, m)
				}, func() {
					w := v.world()
					g := &GSpec{NKs: oddNK, EKs: oddEK}
					for i := 0; i < l; i++ {
						g.Nodes = append(g.Nodes, 1)
						g.Edges = append(g.Edges, GE{i, (i + 1) % l, 0})
					}
					g.fill(w, nil, nil)
					addNoise(w, v.noise)
					for i := 0; i <= m; i++ {
						for j := i + 1; j <= m; j++ {
							if m > 14 && i > 0 && j < m && j-i > 1 && (i*7+j)%11 != 0 {
								continue
							}
							var ps []Pat
							for d := -1; d <= 1; d += 2 {
								p := longPattern(m, PI{Dir: d, Min: 1, Max: 1}, PI{L: []string{"A"}}, PI{})
								p[2*i].Name, p[2*j].Name = "a", "a"
								ps = append(ps, p)
								if j < m {
									q := longPattern(m, PI{Dir: d, Min: 1, Max: 1}, PI{L: []string{"A"}}, PI{})
									q[2*i+1].Name, q[2*j+1].Name = "e", "e"
									ps = append(ps, q)
								}
							}
							for _, p := range ps {
								want, ok := w.M.refMatchesMax(p, nil, 600)
								if !ok {
									continue
								}
								w.checkPattern(p, nil, want)
								c.st.Traces++
								c.st.Transitions += int64(len(want)) + 1
							}
						}
					}
					c.st.States++
					c.st.Checks += w.checks
				})
			}
		}
	})
}

// C13: the filter refuses one edge.
func oddCollectTasks(th bool) []Task {
	return scaleTasks("odd", 6, oddSizes(th), func(c *Ctx, n int) {
		for _, what := range []int{0, 1, 2, 4, 8, 9} {
			for k := 0; k < n; k++ {
				if n > 13 && (k+what)%2 == 1 {
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("a chain of %d edges, at place %d %s, trails", n, k, oddities[what])
				}, func() {
					w := newWorld()
					oddChain(n, k, what).fill(w, nil, nil)
					for _, dir := range []int{1, -1, 0} {
						for _, f := range []int{0, 1, 2, 3 + k} {
							from := 0
							if dir == -1 {
								from = n
							}
							for _, b := range [][2]int{{1, -1}, {k + 1, k + 1}, {-1, k + 2}} {
								c.st.Transitions += w.checkCollect(collectCase{from: from, dir: dir, filter: f, min: b[0], max: b[1]}, 2)
								c.st.Traces++
							}
						}
					}
					c.st.States++
					c.st.Checks += w.checks
				})
			}
		}
	})
}

// C20: one node of a chain or a cycle is mapped already.
func oddMappedTasks(th bool) []Task {
	return scaleTasks("odd-mapped", 4, oddSizes(th), func(c *Ctx, n int) {
		for shape := 0; shape < 4; shape++ {
			c.Case(func() string {
				return fmt.Sprintf("%s of %d edges, one or two of its nodes mapped already, subgraph copies", []string{"a chain", "a cycle", "a chain with loops", "a chain of two-cycles"}[shape], n)
			}, func() {
				for k := 0; k <= n; k++ {
					for _, k2 := range uniq([]int{k, n - k, (k + 2) % (n + 1)}) {
						g := oddChain(n, 0, 0)
						switch shape {
						case 1:
							g.Edges = append(g.Edges, GE{n, 0, 1})
						case 2:
							for i := 0; i <= n; i++ {
								g.Edges = append(g.Edges, GE{i, i, i % 3})
							}
						case 3:
							for i := 0; i < n; i++ {
								g.Edges = append(g.Edges, GE{i + 1, i, i % 3})
							}
						}
						src, t := specGraph(g).Build(), newWorld()
						t.NewNode([]string{"X"}, nil)
						t.NewNode([]string{"Y"}, nil)
						nm := map[*lpg.Node]*lpg.Node{src.N[k]: t.N[0]}
						if k2 != k {
							nm[src.N[k2]] = t.N[1]
						}
						tf := transforms[(n+k)%len(transforms)]
						copySubgraph(src, t, tf, 0, nm)
						copySubgraph(src, t, tf, n/2, nm)
						copySubgraph(src, t, tf, n, nm)
						both(srcTgt, [2]*World{src, t})
						c.st.Traces++
						c.st.Transitions += 3
						c.st.Checks += src.checks + t.checks
					}
				}
				c.st.States++
			})
		}
	})
}

// C19: one node of a chain is not copied, or is an existing one.
func oddSelectedTasks(th bool) []Task {
	return scaleTasks("odd-selected", 4, oddSizes(th), func(c *Ctx, n int) {
		for _, what := range []int{0, 8, 9} {
			c.Case(func() string {
				return fmt.Sprintf("a chain of %d edges, with %s, copied without one node, or with one node replaced by an existing one", n, oddities[what])
			}, func() {
				for k := 0; k <= n; k++ {
					for how := 0; how < 4; how++ {
						src, t := specGraph(oddChain(n, k%n, what)).Build(), newWorld()
						t.NewNode([]string{"X"}, nil)
						t.NewNode([]string{"Y"}, nil)
						sel := make([]int, n+1)
						for i := range sel {
							sel[i] = -2
						}
						sel[k] = -1 + how%2
						copySelected(src, t, transforms[(n+k)%len(transforms)], sel, how >= 2)
						both(srcTgt, [2]*World{src, t})
						c.st.Traces++
						c.st.Transitions++
						c.st.Checks += src.checks + t.checks
					}
				}
				c.st.States++
			})
		}
	})
}

// C17: unknown members that are nested deeply, long, or many.
func deepUnknownTasks(th bool) []Task {
	sizes := append(append([]int{}, scaleSizes...), 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2500)
	rep := strings.Repeat
	return scaleTasks("unknown", 2, sizes, func(c *Ctx, n int) {
		values := map[string]string{
			"arrays":                  rep("[", n) + rep("]", n),
			"objects":                 rep(`{"nodes":`, n) + "1" + rep("}", n),
			"objects and arrays":      rep(`{"a":[`, n) + rep("]}", n),
			"objects after values":    rep(`{"a":1,"b":"nodes","c":[],"edges":`, n) + "{}" + rep("}", n),
			"arrays with a tail":      rep("[", n) + rep(`,"nodes",[{"n":7}]]`, n)[1:],
			"one long array":          "[" + rep(`{"n":5},`, n) + `"edges"]`,
			"one long array of lists": "[" + rep(`[[]],`, n) + `{}]`,
			"a long string":           `"` + rep(`\"}]`, n) + `"`,
			"a long number":           "0." + rep("1", n),
		}
		values["arrays with a tail"] = rep("[", n) + `"x"` + rep(`,"nodes",[{"n":7}]]`, n)
		var names []string
		for k := range values {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, name := range names {
			name := name
			c.Case(func() string { return fmt.Sprintf("an unknown member: %s, %d", name, n) }, func() {
				nodes, edges := `"nodes":[{"n":0,"labels":["A"]},{"n":1,"edges":[{"to":0,"label":"x"}]}]`, `"edges":[{"from":0,"to":1,"label":"y"}]`
				u := `"u":` + values[name]
				for i, parts := range [][]string{{u, nodes, edges}, {nodes, u, edges}, {edges, nodes, u}, {u, edges, `"v":` + values[name], nodes, u[:1] + "w" + u[2:]}} {
					doc := "{" + strings.Join(parts, ",") + "}"
					if v := checkDoc([]byte(doc), fmt.Sprint("unknown member, place ", i), nil); v != 1 {
						panic("bad test document " + clip(doc, 500))
					}
					c.st.Traces++
					c.st.Transitions++
				}
			})
			c.st.States++
		}
		c.Case(func() string { return fmt.Sprintf("%d unknown members", n) }, func() {
			sb := strings.Builder{}
			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, `"u%d":{"nodes":[%d]},`, i, i)
			}
			doc := "{" + sb.String() + `"nodes":[{"n":0},{"n":1,"edges":[{"to":0,"label":"x"}]}],` + strings.ReplaceAll(sb.String(), "u", "v") + `"edges":[{"from":0,"to":1,"label":"y"}]}`
			if v := checkDoc([]byte(doc), "unknown members", nil); v != 1 {
				panic("bad test document " + clip(doc, 500))
			}
			c.st.Traces++
			c.st.Transitions++
			c.st.States++
		})
	})
}

// C16: numbers arrive exactly at an unmarshaler of the caller's.
func exactNumberTasks(th bool) []Task {
	var vals []any
	for k := 0; k < 63; k++ {
		for d := -1; d <= 1; d++ {
			x := 1<<k + d
			vals = append(vals, x, -x, []int{x, -x}, []any{x, map[string]any{"k": -x}}, native{x})
		}
	}
	for k := 0; k < 64; k++ {
		vals = append(vals, uint64(1)<<k, uint64(1)<<k-1)
	}
	vals = append(vals, math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), int64(1)<<53+1, int32(math.MinInt32), uint8(255), float32(0.1))
	for _, x := range []float64{0, 0.1, 1.0 / 3, 1e15, 1e20, 1e21, 1e22, 1e-6, 1e-7, 123456789.987654321, math.MaxFloat64, math.SmallestNonzeroFloat64, 1<<53 + 2, math.Pi} {
		vals = append(vals, x, -x, []any{x})
	}
	vals = append(vals, json.Number("12345678901234567890123"), json.Number("1e-400"), json.RawMessage("1.000000000000000000001"))
	return scaleTasks("exact-numbers", 2, []int{0, 1, 2, 3}, func(c *Ctx, mode int) {
		for i, v := range vals {
			v := v
			c.Case(func() string {
				return fmt.Sprintf("the value %#v (%T) written (separate edges %v, own marshaler %v) and read by an unmarshaler that keeps numbers exactly", v, v, mode&1 == 1, mode&2 == 2)
			}, func() {
				g := lpg.NewGraph()
				n := g.NewNode(nil, PM{"p": v})
				g.NewEdge(n, n, "x", PM{"q": v})
				j := lpg.JSON{MarshalEdgesSeparately: mode&1 == 1}
				if mode&2 == 2 {
					j.PropertyMarshaler = func(k string, v any) (string, json.RawMessage, error) {
						b, err := json.Marshal(v)
						return k, b, err
					}
				}
				want, err := json.Marshal(v)
				if err != nil {
					panic(err)
				}
				sb := &strings.Builder{}
				if err := j.Encode(g, sb); err != nil {
					fail("Encode: %v", err)
				}
				got := map[string]string{}
				h := lpg.NewGraph()
				j.PropertyUnmarshaler = func(k string, raw json.RawMessage) (string, any, error) {
					got[k] = string(raw)
					return k, string(raw), nil
				}
				if err := j.Decode(h, json.NewDecoder(strings.NewReader(sb.String()))); err != nil {
					fail("Decode: %v", err)
				}
				for _, k := range []string{"p", "q"} {
					if a, b := exactJSON(got[k]), exactJSON(string(want)); a != b {
						fail("the value of %s arrives as %s, expected %s", k, got[k], want)
					}
				}
				c.st.Checks += 2
			})
			c.st.States++
			c.st.Traces++
			c.st.Transitions += 2
			_ = i
		}
	})
}

// exactJSON is a JSON value with its numbers in a normal form.
func exactJSON(doc string) string {
	d := json.NewDecoder(strings.NewReader(doc))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return "not JSON: " + doc
	}
	var norm func(v any) any
	norm = func(v any) any {
		switch x := v.(type) {
		case json.Number:
			r, ok := new(big.Rat).SetString(x.String())
			if !ok {
				return "number " + x.String()
			}
			return "number " + r.RatString()
		case []any:
			for i := range x {
				x[i] = norm(x[i])
			}
		case map[string]any:
			for k := range x {
				x[k] = norm(x[k])
			}
		}
		return v
	}
	return js(norm(v))
}

// C24: nodes are relabeled to and from many labels.
func manyRelabelTasks(th bool) []Task {
	return scaleTasks("relabel", 2, scaleSizes, func(c *Ctx, n int) {
		for how := 0; how < 8; how++ {
			c.Case(func() string {
				return fmt.Sprintf("nodes relabeled to %d labels, to others and back, way %d", n, how)
			}, func() {
				many := func(from, step int) []string {
					var l []string
					for i := 0; i < n; i++ {
						l = append(l, fmt.Sprint("l", from+i*step))
					}
					return l
				}
				w := setWorldOf(4)
				for i := range w.N {
					w.nm.Add(w.N[i])
					w.inNM[i] = true
				}
				look := func() {
					w.observeNodeMap()
					for i := range w.N {
						ls := w.M.N[i].Labels
						for _, q := range [][]string{ls, nil} {
							if q == nil && len(ls) > 0 {
								q = []string{ls[len(ls)/2]}
							}
							want := []int{}
							for k := range w.N {
								if w.inNM[k] && hasAll(w.M.N[k].Labels, q) {
									want = append(want, k)
								}
							}
							w.expect(w.nodesOf(w.nm.IteratorAllLabels(set(q...))), want, "NodeMap.IteratorAllLabels(%d labels)", len(q))
							w.expect(w.nodesOf(w.G.GetNodesWithAllLabels(set(q...))), w.M.nodes(func(_ int, x *MNode) bool { return hasAll(x.Labels, q) }), "Graph.GetNodesWithAllLabels(%d labels)", len(q))
						}
					}
				}
				relabel := func(i int, ls []string) {
					old := w.N[i].GetLabels()
					if how&1 == 1 {
						w.SetLabels(i, ls)
					}
					w.nm.Replace(w.N[i], old, set(ls...))
					if how&1 == 0 {
						w.SetLabels(i, ls)
					}
					c.st.Transitions++
					look()
				}
				a, b := many(0, 1), many(n/2, 1)
				if how&2 == 2 {
					b = many(0, 2)
				}
				if how&4 == 4 {
					b = append([]string{"A"}, a...)
				}
				relabel(0, a)
				relabel(1, a)
				relabel(0, b)
				relabel(2, b)
				relabel(0, a[:1])
				relabel(1, nil)
				relabel(1, b)
				relabel(2, []string{"A"})
				relabel(3, a)
				for i := range w.N {
					w.nm.Remove(w.N[i])
					w.inNM[i] = false
					look()
				}
				c.st.States++
				c.st.Traces++
				c.st.Checks += w.checks
			})
		}
	})
}

// C27: the head and tail nodes a search reports, supplied to the next search.
func (w *World) endsSupplied(p1, p2 Pat) {
	heads, tails := []int{}, []int{}
	n := 0
	if !w.M.matchesMax(p1, nil, maxChain, func(ns, _ []int, _ map[string]string) {
		n++
		heads, tails = append(heads, ns[0]), append(tails, ns[len(ns)-1])
	}) || n == 0 {
		return
	}
	acc, err := p1.lpg().FindPaths(w.G, nil)
	if err != nil {
		fail("%s: error %v", p1, err)
	}
	w.expect(w.nodeList(acc.GetHeadNodes()), uniq(heads), "%s: GetHeadNodes", p1)
	w.expect(w.nodeList(acc.GetTailNodes()), uniq(tails), "%s: GetTailNodes", p1)
	for k, l := range [][]*lpg.Node{acc.GetHeadNodes(), acc.GetTailNodes()} {
		ps := &lpg.PatternSymbol{}
		for _, x := range l {
			ps.AddNode(x)
		}
		sy := symsOf(nil)
		sy.N["a"] = uniq([][]int{heads, tails}[k])
		want, ok := w.M.refMatchesMax(p2, sy, maxChain)
		if !ok {
			continue
		}
		var got []string
		w.each(p2, map[string]*lpg.PatternSymbol{"a": ps}, k == 1, func(path *lpg.Path, sym map[string]any) { got = append(got, w.matchOf(path, sym)) })
		sort.Strings(got)
		w.checks++
		w.samePaths(p2, got, want)
	}
}

// C05: lists and strings that differ in one place or are longer or shorter than others.
func oddValueTasks(th bool) []Task {
	sizes := append(wideSizes(dt(th, 20, 40), 34), 63, 64, 65, 127, 128, 129, 255, 256, 257)
	kinds := []struct {
		name string
		make func(n, odd, rep int) any // the element at odd is different
	}{
		{"integers", func(n, odd, rep int) any {
			var a []int
			var b []any
			for i := 0; i < n; i++ {
				x := i % 5
				if i == odd {
					x = 9
				}
				a, b = append(a, x), append(b, x)
			}
			return [...]any{a, b, native{a}, native{b}}[rep]
		}},
		{"strings", func(n, odd, rep int) any {
			var a []string
			var b []any
			for i := 0; i < n; i++ {
				x := string(rune('a' + i%5))
				if i == odd {
					x += "a"
				}
				a, b = append(a, x), append(b, x)
			}
			return [...]any{a, b, native{a}, native{b}}[rep]
		}},
		{"nested lists", func(n, odd, rep int) any {
			var b []any
			for i := 0; i < n; i++ {
				x := []int{i % 3, 1}
				if i == odd {
					x[1] = 2
				}
				if i%4 == rep {
					b = append(b, []any{x[0], x[1]})
				} else {
					b = append(b, x)
				}
			}
			if rep%2 == 1 {
				return native{b}
			}
			return b
		}},
		{"deep lists", func(n, odd, rep int) any {
			var v any = []int{1}
			if odd >= 0 {
				v = []int{odd + 2}
			}
			for i := 0; i < n%70; i++ {
				if i%4 == rep {
					v = native{v}
				}
				v = []any{v}
			}
			return v
		}},
		{"text", func(n, odd, rep int) any {
			s := []byte(strings.Repeat("abcde", n/5+1)[:n])
			if odd >= 0 {
				s[odd] = 'z'
			}
			if rep%2 == 1 {
				return native{string(s)}
			}
			return string(s)
		}},
	}
	return scaleTasks("odd-values", 8, sizes, func(c *Ctx, n int) {
		for _, kind := range kinds {
			for _, ix := range []int{-1, int(lpg.HashIndex), int(lpg.BtreeIndex)} {
				if kind.name == "deep lists" && ix == int(lpg.BtreeIndex) {
					continue // not comparable
				}
				c.Case(func() string {
					return fmt.Sprintf("values that are %s of length %d, longer, shorter, or different in one place; index %s", kind.name, n, variant{ix, 0})
				}, func() {
					w := variant{ix, 0}.world()
					var queries []PM
					k := 0
					add := func(l, odd int) {
						if l < 1 || odd >= l {
							return
						}
						k++
						w.NewNode([]string{"A"}, PM{"p": kind.make(l, odd, k%4)})
						if k%3 == 0 {
							w.NewNode(nil, PM{"p": kind.make(l, odd, (k+1)%4)})
						}
						w.NewEdge(0, k/2, "x", PM{"p": kind.make(l, odd, (k+2)%4)})
						for r := 0; r < 4; r++ {
							if (r+k)%2 == 0 && (n <= 20 || (r+k+n)%3 == 0) {
								queries = append(queries, PM{"p": kind.make(l, odd, r)})
							}
						}
					}
					for _, l := range uniq([]int{n, n - 1, n + 1, 2 * n, n / 2, 1, 2}) {
						add(l, -1)
					}
					for _, odd := range uniq([]int{0, 1, 2, n / 2, n - 2, n - 1}) {
						if odd >= 0 {
							add(n, odd)
							add(n+1, odd)
						}
					}
					obsFind(nil, nil, queries)(w)
					c.st.States++
					c.st.Traces++
					c.st.Transitions += int64(len(queries))
					c.st.Checks += w.checks
				})
			}
		}
	})
}

// C20: every node is a start, in several orders, with one correspondence.
func orderTasks(th bool) []Task {
	return wideTasks("orders", isSparseFamily, wideSizes(dt(th, 13, 20), dt(th, 34, 70)), []int{0, 1, 2}, func(c *Ctx, f wideFamily, n, kinds int, g *GSpec) {
		orders := map[string]func(i, m int) int{
			"forward":              func(i, m int) int { return i },
			"backward":             func(i, m int) int { return m - 1 - i },
			"every second, again":  func(i, m int) int { return (2*i + (2*i/m)*(1-m%2)) % m },
			"from the middle down": func(i, m int) int { return (m/2 - i + m) % m },
			"leaf, then the rest":  func(i, m int) int { return (i + m - 1) % m },
		}
		var names []string
		for k := range orders {
			names = append(names, k)
		}
		sort.Strings(names)
		for oi, o := range names {
			for _, noise := range []int{0, 1, 12} {
				if noise == 12 && n > 20 {
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("%s: subgraphs copied from every node, order %s, %d nodes created in between", f.label(n, kinds), o, noise)
				}, func() {
					gs := *g
					if kinds == 1 && oi%2 == 0 || kinds == 0 && oi%2 == 1 {
						gs.EKs = append([]EK{}, g.EKs...)
						gs.EKs[0].L = ""
					}
					// one more node leads to several others
					m := len(gs.Nodes)
					gs.Nodes = append(append([]int{}, gs.Nodes...), 0)
					gs.Edges = append([]GE{}, gs.Edges...)
					for _, to := range uniq([]int{0, m / 2, m - 1}) {
						gs.Edges = append(gs.Edges, GE{m, to, gs.Edges[0].Kind})
					}
					src, t := specGraph(&gs).Build(), newWorld()
					nm := map[*lpg.Node]*lpg.Node{}
					tf := transforms[(n+oi)%len(transforms)]
					for i := 0; i < m; i++ {
						copySubgraph(src, t, tf, orders[o](i, m), nm)
						for k := 0; k < noise && i < 3; k++ {
							t.NewNode([]string{"N"}, nil)
						}
						if i == 0 || i == m/3 {
							obsCopy(t)
						}
					}
					copySubgraph(src, t, tf, m, nm)
					both(srcTgt, [2]*World{src, t})
					c.st.Traces++
					c.st.Transitions += int64(m) + 1
					c.st.Checks += src.checks + t.checks
				})
			}
		}
		c.st.States++
	})
}

func isSparseFamily(f wideFamily) bool { return isSparse(f.name) }

// C21: all elements alike but one, which is at any place of either graph.
func oddIsoTasks(th bool) []Task {
	return wideTasks("odd", nil, []int{2, 3, 4, 5, 6}, []int{1}, func(c *Ctx, f wideFamily, n, kinds int, g *GSpec) {
		if len(g.Nodes) > 6 {
			return
		}
		odd := func(node, edge, turn int) *GSpec {
			h := &GSpec{NKs: g.NKs, EKs: g.EKs, Nodes: append([]int{}, g.Nodes...), Edges: append([]GE{}, g.Edges...)}
			if node >= 0 {
				h.Nodes[node] = 1
			}
			if edge >= 0 {
				h.Edges[edge].Kind = 1
			}
			if turn >= 0 {
				e := &h.Edges[turn]
				e.From, e.To = e.To, e.From
			}
			return h
		}
		q := &equivalences[0]
		ask := func(g1, g2 *GSpec, np, ep []int) {
			c.Case(func() string {
				return fmt.Sprintf("%s and %s, nodes created in the order %v, edges %v", g1, g2, np, ep)
			}, func() {
				want := g1.classes(q.n1, q.e1).iso(g2.classes(q.n2, q.e2))
				got, err := checkIso(g1, g2, specWorld(g1, nil, nil), specWorld(g2, np, ep), q, context.Background(), nil)
				if err != nil || got != want {
					fail("the answer is %v, error %v, expected %v", got, err, want)
				}
				c.st.Traces++
				c.st.Transitions++
				c.st.Checks++
			})
		}
		for a := -1; a < len(g.Nodes); a++ {
			for b := -1; b < len(g.Edges); b++ {
				g1 := odd(a, b, -1)
				c.st.States++
				for a2 := -1; a2 < len(g.Nodes); a2++ {
					if (a < 0) != (a2 < 0) || len(g.Nodes) > 5 && a2 != a && a2 != len(g.Nodes)-1-a {
						continue
					}
					for b2 := -1; b2 < len(g.Edges); b2++ {
						if (b < 0) != (b2 < 0) || len(g.Nodes) > 4 && b2 != b && b2 != len(g.Edges)-1-b {
							continue
						}
						ask(g1, odd(a2, b2, -1), nil, nil)
						ask(g1, odd(a2, b2, -1), revOrder(len(g.Nodes)), interleaved(len(g.Edges)))
						if b2 >= 0 {
							ask(g1, odd(a2, -1, b2), nil, nil)
							ask(odd(a, -1, b), odd(a2, -1, b2), revOrder(len(g.Nodes)), nil)
							ask(odd(a, b, b), odd(a2, b2, b2), nil, interleaved(len(g.Edges)))
						}
					}
				}
			}
		}
	})
}
