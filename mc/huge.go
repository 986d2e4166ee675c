package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// The largest members of the parametrised families, for what is cheap enough:
// sizes beyond the usual thresholds (64, 100, 128, 256, 300).
var hugeSizes = []int{65, 100, 129, 200, 257, 300}

// nastyStrings are strings that are special to some encoding, separator or
// comparison.
var nastyStrings = []string{"", "\x00", "\x01", "\a", "\b", "\t", "\n", "\v", "\f", "\r", "\x1b", "\x1f", " ", "!", "\"", "#", "%", "%s", "&", "&amp;", "'", "(", "*", "+", ",", ", ", "-", "/", "0", ":", ";", "<", "=", ">", "?", "@",
	"A", "[", "\\", "\\n", "\\u0041", "]", "^", "`", "a", "a,b", "a, b", "{", "|", "}", "~", "\x7f", "\u0080", "\u009f", "\u00a0", "\u00ad", "é", "ß", "\u0301", "\u200b", "\u200e", "\u2028", "\u2029", "\ufeff", "\ufffd", "\uffff", "\U0001f600", "\U0010ffff",
	"true", "null", "nil", "\"A\"", "`A`", "id", "n", "from", "to", "label", "labels", "properties", "node", "edge", "graph"}

// ---- C08

func copiedIDTasks(th bool) []Task {
	sizes := append(wideSizes(dt(th, 20, 40), 70), hugeSizes...)
	return wideTasks("copied-ids", nil, sizes, []int{0, 1}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		for _, tf := range []transform{transforms[0], transforms[n%len(transforms)]} {
			c.Case(func() string {
				return fmt.Sprintf("%s, copied into an empty graph, into it again, its elements copied within the graph, properties %s", f.label(n, k), tf.name)
			}, func() {
				src, t := specGraph(g).Build(), newWorld()
				copyGraph(src, t, tf)
				obsIDs(t)
				copyGraph(src, t, tf)
				obsIDs(t)
				if len(src.N) < 40 {
					copySubgraph(src, t, tf, 0, map[*lpg.Node]*lpg.Node{})
					obsIDs(t)
				}
				for i := range src.M.N {
					src.regNode(lpg.CopyNode(src.N[i], src.G, tf.f), src.M.N[i].Labels, tf.props(src.M.N[i].Props))
				}
				for i, ne := 0, len(src.M.E); i < ne; i++ {
					me := src.M.E[i]
					src.regEdge(lpg.CloneEdge(src.N[me.To], src.N[me.From], src.E[i], src.G, tf.f), me.To, me.From, me.Label, tf.props(me.Props))
					nm := map[*lpg.Node]*lpg.Node{src.N[me.To]: src.N[me.To], src.N[me.From]: src.N[me.From]}
					src.regEdge(lpg.CopyEdge(src.E[i], src.G, tf.f, nm), me.From, me.To, me.Label, tf.props(me.Props))
				}
				obsIDs(src)
				// new elements after the copies
				for _, w := range []*World{src, t} {
					for i := 0; i < 5; i++ {
						x := w.NewNode([]string{"A"}, nil)
						w.NewEdge(x, 0, "x", nil)
					}
					obsIDs(w)
					obsContents(w)
					c.st.Checks += w.checks
				}
				c.st.States += 5
				c.st.Traces++
				c.st.Transitions += int64(4 * n)
			})
		}
	})
}

// ---- C09

// ownPatterns ask for elements of the members with own property values.
func ownPatterns(n int) []Pat {
	nAny, nA := PI{}, PI{L: []string{"A"}}
	var out []Pat
	for _, i := range uniq([]int{0, 1, 63, 64, n / 2, n - 1, n}) {
		own, next := PI{P: PM{"p": i}}, PI{P: PM{"p": i + 1}}
		out = append(out, Pat{own}, Pat{own, relOf(1, 1, 1), nAny}, Pat{own, relOf(1, 1, 1), next}, Pat{nAny, relOf(0, 1, 1), own}, Pat{nAny, {P: PM{"p": i}, Dir: 1, Min: 1, Max: 1}, nAny},
			Pat{nA, {P: PM{"p": i}, Dir: -1, Min: 1, Max: 1}, nAny, relOf(0, 1, 1), nAny}, Pat{own, relOf(1, 1, 1), next, relOf(1, 1, 1), PI{P: PM{"p": i + 2}}})
	}
	return out
}

func hugePatternTasks(th bool) []Task {
	nAny, nA := PI{}, PI{L: []string{"A"}}
	var ts []Task
	ts = append(ts, widePatterns("huge", nil, hugeSizes, []int{0}, func(n int) []Pat {
		return []Pat{{nAny}, {nA}, {PI{P: PM{"p": 1}}}, {nAny, relOf(1, 1, 1), nAny}, {nA, relOf(-1, 1, 1, "x"), nAny}, {nAny, relOf(0, 1, 1, "y"), PI{P: PM{"p": 1}}},
			{nAny, relOf(1, 1, 1, "y", "x"), nAny}, {nA, relOf(-1, 1, 1, "x", "w", "y"), nAny}, {PI{L: []string{"A", "B"}}, relOf(0, 1, 1, "y", "x"), nAny}}
	}, wideVariants[:2], 1500)...)
	ts = append(ts, widePatterns("huge-own", nil, hugeSizes, []int{2}, ownPatterns, wideVariants, 1500)...)
	ts = append(ts, widePatterns("huge-long", func(f wideFamily) bool { return f.name == "chain" || f.name == "cycle" }, hugeSizes, []int{1, 2}, func(n int) []Pat {
		var out []Pat
		for _, k := range uniq([]int{n, n - 1, 64, 65}) {
			p0, p1 := PI{P: PM{"p": 0}}, PI{P: PM{"p": 1}}
			out = append(out, longPattern(k, relOf(1, 1, 1), p0, nAny), longPattern(k, relOf(-1, 1, 1), nAny, p1))
		}
		return append(out, longPattern(n, relOf(1, 1, 1), nAny, nAny))
	}, wideVariants[:2], 1500)...)
	return ts
}

// interiorPatterns have several nodes (or relationships) with the same labels
// and different property values, in every order.
func interiorPatterns(rels int) []Pat {
	conds := []PI{{}, {L: []string{"A"}}, {L: []string{"A"}, P: PM{"p": 1}}, {L: []string{"A"}, P: PM{"p": 2}}}
	rconds := []PI{{L: []string{"x"}}, {L: []string{"x"}, P: PM{"p": 1}}, {L: []string{"x"}, P: PM{"p": 2}}}
	var out []Pat
	for _, p := range patterns(rels, conds, []PI{relOf(1, 1, 1)}) {
		out = append(out, p)
	}
	for _, p := range patterns(rels, []PI{{}}, rel([]int{1}, rconds, one)) {
		out = append(out, p)
	}
	return out
}

// interiorGraphs are chains whose elements have the property values 1 and 2 in
// every combination.
func interiorGraphs(n int) []*GSpec {
	nks := []NK{{L: []string{"A"}, P: PM{"p": 1}}, {L: []string{"A"}, P: PM{"p": 2}}}
	eks := []EK{{L: "x", P: PM{"p": 1}}, {L: "x", P: PM{"p": 2}}}
	var out []*GSpec
	for m := 0; m < 1<<n; m++ {
		for s := 0; s < 2; s++ {
			g := &GSpec{NKs: nks, EKs: eks}
			for i := 0; i < n; i++ {
				g.Nodes = append(g.Nodes, m>>i&1)
				if i > 0 {
					g.Edges = append(g.Edges, GE{i - 1, i, (m >> (i - 1) & 1) ^ s})
				}
			}
			out = append(out, g)
		}
	}
	return out
}

// ---- C10

func hugeTrailTasks(th bool) []Task {
	nAny := PI{}
	var ts []Task
	ts = append(ts, widePatterns("huge-own", func(f wideFamily) bool { return isSparse(f.name) }, []int{65, 100, 129, 300}, []int{2}, func(n int) []Pat {
		var out []Pat
		if n > 100 {
			for _, l := range [][2]int{{-1, -1}, {n, n}, {64, 65}} {
				out = append(out, Pat{{P: PM{"p": 0}}, relOf(1, l[0], l[1]), nAny}, Pat{nAny, relOf(-1, l[0], l[1], "x", "y"), {P: PM{"p": 0}}})
			}
			return out
		}
		for _, l := range [][2]int{{-1, -1}, {n, n}, {n - 1, n}, {1, n}, {64, 65}, {n + 1, -1}, {40, 41}} {
			for _, d := range []int{1, -1} {
				first, last := PI{P: PM{"p": 0}}, PI{P: PM{"p": n}}
				if d < 0 {
					first, last = last, first
				}
				out = append(out, Pat{first, relOf(d, l[0], l[1]), nAny}, Pat{nAny, relOf(d, l[0], l[1]), last}, Pat{first, relOf(d, l[0], l[1], "x", "y"), last}, Pat{first, relOf(d, 1, 1), nAny, relOf(d, l[0], l[1]), nAny})
			}
		}
		out = append(out, Pat{{P: PM{"p": n / 2}}, relOf(0, -1, -1), nAny})
		return out
	}, []variant{{-1, 0}, {int(lpg.HashIndex), 3}}, 1500)...)
	return ts
}

// ---- C11

func hugeSymTasks(th bool) []Task {
	return wideTasks("huge", nil, []int{65, 129, 300}, []int{2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		nn, ne := len(g.Nodes), len(g.Edges)
		var sets [][2][]int
		for _, m := range []int{1, 2, 7} {
			var a, e []int
			for i := m - 1; i < nn; i += m {
				a = append(a, i)
			}
			for i := m - 1; i < ne; i += m {
				e = append(e, i)
			}
			sets = append(sets, [2][]int{a, e})
		}
		er := relOf(1, 1, 1)
		en := er
		en.Name = "e"
		pats := []Pat{{{Name: "a"}}, {{Name: "a", L: []string{"A"}}}, {{Name: "a", P: PM{"p": n / 2}}}, {{Name: "a"}, er, {}}, {{}, er, {Name: "a"}}, {{}, en, {}}, {{L: []string{"A"}}, en, {}}, {{Name: "a"}, er, {Name: "a"}}}
		for _, v := range wideVariants[:2] {
			c.Case(func() string { return fmt.Sprintf("%s (%s), supplied sets", f.label(n, k), v) }, func() {
				w := v.world()
				g.fill(w, nil, nil)
				addNoise(w, v.noise)
				for _, s := range sets {
					for _, sy := range []*Syms{{N: map[string][]int{"a": s[0]}}, {E: map[string][]int{"e": s[1]}}} {
						for _, p := range pats {
							want, ok := w.M.refMatchesMax(p, sy, 1500)
							if !ok {
								continue
							}
							w.checkPattern(p, sy, want)
							c.st.Traces++
							c.st.Transitions += int64(len(want)) + 1
						}
					}
				}
				if f.name == "cycle" {
					for _, p := range []Pat{longPattern(n, er, PI{Name: "a", P: PM{"p": 3}}, PI{Name: "a"}), longPattern(n-1, er, PI{Name: "a", P: PM{"p": 3}}, PI{Name: "a"})} {
						want, _ := w.M.refMatchesMax(p, nil, 1500)
						w.checkPattern(p, nil, want)
						c.st.Traces++
					}
				}
				c.st.States++
				c.st.Checks += w.checks
			})
		}
	})
}

// ---- C13

func hugeCollectTasks(th bool) []Task {
	return wideTasks("huge", nil, hugeSizes, []int{0}, func(c *Ctx, f wideFamily, n, kk int, g *GSpec) {
		lens := [][2]int{{-1, -1}, {n, n}, {40, 65}}
		if f.name == "parallel" || f.name == "loops" {
			lens = [][2]int{{1, 1}}
		}
		for dir := -1; dir <= 1; dir++ {
			c.Case(func() string { return fmt.Sprintf("%s, direction %d, several starts and lengths", f.label(n, kk), dir) }, func() {
				w := newWorld()
				g.fill(w, nil, nil)
				for _, from := range uniq([]int{0, len(g.Nodes) - 1}) {
					for _, fi := range []int{0, 2 + len(g.Edges)} {
						for _, l := range lens {
							k := collectCase{from: from, dir: dir, filter: fi, min: l[0], max: l[1]}
							c.st.Transitions += w.checkCollect(k, 1)
							c.st.Traces++
						}
					}
				}
				c.st.States++
				c.st.Checks += w.checks
			})
		}
	})
}

// ---- C14

func hugePathTasks(th bool) []Task {
	return wideTasks("huge", hasWalk, hugeSizes, []int{1}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		walk := longWalk(f, n)
		c.Case(func() string {
			return fmt.Sprintf("%s, walk of %d steps appended in lists, cloned, sliced, joined and removed", f.label(n, k), n)
		}, func() {
			x := &pworld{w: newWorld()}
			g.fill(x.w, nil, nil)
			put := func(p *lpg.Path, l []pel) int {
				m := mpath{start: -1}
				if len(l) > 0 {
					m = mpath{x.src(l[0]), append([]pel{}, l...)}
				}
				x.all = append(x.all, &ppath{p, m})
				return len(x.all) - 1
			}
			for _, chunk := range []int{1, 5, 64, n} {
				p := &lpg.Path{}
				for i := 0; i < n; i += chunk {
					p.Append(x.els(walk[i:min(i+chunk, n)])...)
				}
				put(p, walk)
			}
			cl := x.all[0].p.Clone()
			put(cl, walk)
			for _, cut := range []int{1, 2, n / 2, n - 1} {
				a := lpg.NewPathFromElements(x.els(walk[:cut])...)
				b := lpg.NewPathFromElements(x.els(walk[cut:])...)
				put(b, walk[cut:])
				put(a.Clone().AppendPath(b), walk)
				put(x.all[0].p.Slice(0, cut+2), walk[:min(cut+1, n)])
				put(x.all[1].p.Slice(cut, -1), walk[cut:])
				if !x.all[0].p.HasPrefixPath(a) || a.HasPrefixPath(x.all[0].p) {
					fail("HasPrefixPath is wrong for the first %d steps of %d", cut, n)
				}
			}
			for k := 0; k < n; k++ {
				cl.RemoveLast()
				x.all[4].m.els = x.all[4].m.els[:n-k-1]
				if k%50 == 3 || k > n-3 {
					x.check(4)
				}
			}
			x.all[4].m = mpath{start: x.src(walk[0])}
			for i := range x.all {
				x.check(i)
			}
			obsPathGraph(x)
			c.st.States += int64(len(x.all))
			c.st.Transitions += int64(n)
			c.st.Traces++
			c.st.Checks += x.w.checks
		})
	})
}

// ---- C15

func hugeCursorTasks(th bool) []Task {
	return wideTasks("huge", nil, hugeSizes, []int{1}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		c.Case(func() string {
			return f.label(n, k) + ", cursor at several nodes, then pushes as far as possible and pops"
		}, func() {
			w := newWorld()
			g.fill(w, nil, nil)
			x := &pworld{w: w}
			cu := &lpg.Cursor{}
			for _, at := range uniq([]int{0, len(w.N) / 2, len(w.N) - 1}) {
				cu.Set(w.N[at])
				w.checkCursor(cu, at, mpath{}, false, x)
			}
			used := make([]bool, len(w.E))
			at := 0
			cu.Set(w.N[0])
			cu.StartPath()
			m := mpath{start: 0}
			for step := 0; step <= n; step++ {
				next := -1
				for e := range w.M.E {
					if !used[e] && w.M.E[e].From == at {
						next = e
						break
					}
				}
				if next < 0 {
					break
				}
				used[next] = true
				cu.PushToPath(w.E[next])
				at = w.M.E[next].To
				m.els = append(m.els, pel{next, false})
				if step%37 == 0 {
					w.checkCursor(cu, at, m, true, x)
				}
			}
			w.checkCursor(cu, at, m, true, x)
			for len(m.els) > 0 {
				cu.PopFromPath()
				m.els = m.els[:len(m.els)-1]
				at = x.last(m)
				if len(m.els)%37 < 2 {
					w.checkCursor(cu, at, m, true, x)
				}
			}
			c.st.States += int64(len(w.N))
			c.st.Transitions += int64(2 * n)
			c.st.Traces++
			c.st.Checks += w.checks
		})
	})
}

// ---- C16, C17, C18

func hugeJSONTasks(th bool) []Task {
	cs, tgs := codecs(), targets()
	ts := wideTasks("huge", nil, hugeSizes, []int{0, 2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		for _, separate := range []bool{false, true} {
			c.Case(func() string { return fmt.Sprintf("graph %s, separate edges %v", f.label(n, k), separate) }, func() {
				w := specGraph(g).Build()
				mapDefault(n % 8)
				w.roundTrip(&cs[0], separate, tgs[n%len(tgs)], nil)
				w.roundTrip(&cs[1], separate, tgs[(n+1)%len(tgs)], lpg.MapInterner{})
				mapDefault(0)
				c.st.Traces += 2
				c.st.Transitions += 4
				c.st.States++
				c.st.Checks += w.checks
			})
		}
	})
	// every special string in every place, alone and next to another
	for s := 0; s < 4; s++ {
		ts = append(ts, Task{Name: fmt.Sprintf("nasty-strings/%d", s), Run: func(c *Ctx) {
			for i, x := range nastyStrings {
				if i%4 != s {
					continue
				}
				for place := 0; place < 7; place++ {
					c.Case(func() string { return fmt.Sprintf("string %q in place %d, and among others", x, place) }, func() {
						for _, y := range []string{x, x + "A", "A" + x, x + x, "A"} {
							w := newWorld()
							a := w.NewNode([]string{"A"}, PM{"p": 1})
							switch place {
							case 0:
								w.NewNode([]string{y}, nil)
								w.NewNode([]string{x, y, "B"}, nil)
							case 1:
								w.NewNode(nil, PM{y: 1})
								w.NewNode(nil, PM{x: 1, y: 2, "z": 3})
							case 2:
								w.NewNode(nil, PM{"p": y})
								w.NewNode(nil, PM{"p": []string{x, y}, "q": []any{y, PM{y: x}}})
							case 3:
								w.NewEdge(a, a, y, nil)
								w.NewEdge(a, a, x, nil)
							case 4:
								w.NewEdge(a, a, "x", PM{y: 1})
								w.NewEdge(a, a, "x", PM{x: 1, y: 2, "z": 3})
							case 5:
								w.NewEdge(a, a, "x", PM{"p": y})
								w.NewEdge(a, a, "x", PM{"p": []string{x, y}, "q": []any{y, PM{y: x}}})
							case 6:
								w.NewNode([]string{y, x}, PM{x: y})
								w.NewEdge(a, a+1, x, PM{y: x})
							}
							for _, separate := range []bool{false, true} {
								for ci := range cs {
									if ci > 1 && y != x {
										continue
									}
									w.roundTrip(&cs[ci], separate, tgs[ci%len(tgs)], nil)
									c.st.Traces++
									c.st.Transitions += 2
								}
							}
							c.st.States++
							c.st.Checks += w.checks
						}
					})
				}
			}
		}})
	}
	return ts
}

// specialNumbers are node numbers at the limits of integer types.
var specialNumbers = []int{0, -1, 1, 7, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<53 + 2, 1<<62 - 1, 1<<63 - 1, -1 << 63, -1<<63 + 1}

func hugeDecodeTasks(th bool) []Task {
	ts := wideTasks("huge", nil, hugeSizes, []int{0, 2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		nn, ne := len(g.Nodes), len(g.Edges)
		w := newWorld()
		g.fill(w, nil, nil)
		want := w.M.sg(func(p PM) string { return typedStr(normProps(p)) })
		for oi, emb := range []int{0, -1, 0x5555555555555555 & 0x7fffffffffffffff} {
			l := layout{numbers: [][]int{nil, revOrder(nn), interleaved(nn)}[(oi+n)%3], norder: [][]int{revOrder(nn), nil, interleaved(nn)}[oi], eorder: [][]int{interleaved(ne), revOrder(ne), nil}[oi], embed: emb, edges1st: oi == 1}
			doc, _ := g.write(&l)
			c.Case(func() string {
				return fmt.Sprintf("%s, order of nodes, edges and numbers %d, embedded edges %b", f.label(n, k), oi, l.embed)
			}, func() {
				for _, chunk := range []int{0, 100, 4096} {
					r := &cutReader{data: doc, err: io.EOF}
					if chunk > 0 {
						r.chunks = []int{chunk}
					}
					got, err := decode(lpg.NewGraph(), lpg.JSON{}, r)
					if err != nil {
						fail("Decode returns the error %v for the valid document %s", err, clip(string(doc), 2000))
					}
					if !got.iso(want) {
						fail("read in chunks of %d, decoding gives\n%s\ndocument %s", chunk, clip(got.String(), 3000), clip(string(doc), 2000))
					}
					c.st.Traces++
					c.st.Transitions++
				}
				// cut off near the end, and one unknown edge end at three places
				for _, cut := range []int{1, 2, 5, 30, len(doc) / 2} {
					if _, err := decode(lpg.NewGraph(), lpg.JSON{}, &cutReader{data: doc[:len(doc)-cut], err: io.EOF}); err == nil {
						fail("Decode accepts the document cut off after %d of %d bytes", len(doc)-cut, len(doc))
					}
					if _, err := decode(lpg.NewGraph(), lpg.JSON{}, &cutReader{data: doc[:len(doc)-cut], err: errInjected}); !errors.Is(err, errInjected) {
						fail("the reader fails after %d of %d bytes, but Decode returns the error %v", len(doc)-cut, len(doc), err)
					}
					c.st.Traces += 2
				}
				parts := bytes.Split(doc, []byte(`"to":`))
				for _, i := range uniq([]int{1, len(parts) / 2, len(parts) - 1}) {
					if i == 0 {
						continue
					}
					bad := append(append([]byte{}, bytes.Join(parts[:i], []byte(`"to":`))...), `"to":1234567`...)
					bad = append(bad, bytes.TrimLeft(parts[i], "-0123456789")...)
					if i+1 < len(parts) {
						bad = append(append(bad, `"to":`...), bytes.Join(parts[i+1:], []byte(`"to":`))...)
					}
					if _, err := decode(lpg.NewGraph(), lpg.JSON{}, bytes.NewReader(bad)); err == nil {
						fail("Decode accepts the document although edge %d names an unknown node", i)
					}
					c.st.Traces++
				}
				c.st.States++
			})
		}
	})
	ts = append(ts, Task{Name: "special-numbers", Run: func(c *Ctx) {
		for _, a := range specialNumbers {
			c.Case(func() string { return fmt.Sprintf("node numbers %d and every other special one", a) }, func() {
				for _, b := range specialNumbers {
					for how := 0; how < 8; how++ {
						end := b
						if how >= 6 { // the second node is not there
							end = a
						}
						nodes := []string{fmt.Sprintf(`{"n":%d,"labels":["A"]}`, a)}
						edge := fmt.Sprintf(`{"from":%d,"to":%d,"label":"x"}`, a, b)
						if how%2 == 1 {
							edge = fmt.Sprintf(`{"from":%d,"to":%d,"label":"x"}`, b, a)
						}
						edges := []string{edge}
						if how == 4 || how == 5 {
							edges = nil
							nodes[0] = fmt.Sprintf(`{"n":%d,"labels":["A"],"edges":[{"to":%d,"label":"x"}]}`, a, b)
						}
						if end == b && a != b {
							nodes = append(nodes, fmt.Sprintf(`{"n":%d,"labels":["B"]}`, b))
							if how == 2 || how == 3 {
								nodes[0], nodes[1] = nodes[1], nodes[0]
							}
						}
						doc := fmt.Sprintf(`{"nodes":[%s],"edges":[%s]}`, strings.Join(nodes, ","), strings.Join(edges, ","))
						checkDoc([]byte(doc), "as a whole", func(data []byte) io.Reader { return bytes.NewReader(data) })
						c.st.Traces++
						c.st.Transitions++
						c.st.Checks++
					}
				}
				c.st.States++
			})
		}
	}})
	return ts
}

func hugeFailTasks(th bool) []Task {
	outs := outputs()
	return wideTasks("huge", nil, hugeSizes, []int{0}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		for oi := range outs {
			o := &outs[oi]
			c.Case(func() string { return f.label(n, k) + ", " + o.name }, func() {
				w := newWorld()
				g.fill(w, nil, nil)
				ref := &faultWriter{bytes: -1}
				if err := o.run(w, ref); err != nil {
					fail("%s returns the error %v although nothing fails", o.name, err)
				}
				o.ok(w, ref.buf.Bytes())
				for _, at := range uniq([]int{1, 2, 3, ref.calls / 4, ref.calls / 2, ref.calls * 3 / 4, ref.calls - 2, ref.calls - 1, ref.calls}) {
					if at < 1 {
						continue
					}
					fw := &faultWriter{failAt: at, bytes: -1}
					if err := o.run(w, fw); fw.failed && !errors.Is(err, errInjected) {
						fail("%s: writing failed at call %d of %d, but the result is %v", o.name, at, ref.calls, err)
					}
					fw = &faultWriter{bytes: ref.buf.Len() * at / (ref.calls + 1)}
					if err := o.run(w, fw); fw.failed && !errors.Is(err, errInjected) {
						fail("%s: writing failed after %d bytes, but the result is %v", o.name, fw.bytes, err)
					}
					c.st.Traces += 2
					c.st.Transitions += 2
				}
				c.st.States++
				c.st.Checks += w.checks
			})
		}
	})
}

// ---- C19, C20

func hugeCopyTasks(th bool, sub bool) []Task {
	tgs := copyTargets()
	return wideTasks("huge", nil, hugeSizes, []int{0, 2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		nn := len(g.Nodes)
		tg := tgs[n%len(tgs)]
		tf := transforms[n%len(transforms)]
		c.Case(func() string {
			return fmt.Sprintf("%s, copied into %s, properties %s", f.label(n, k), tg.name, tf.name)
		}, func() {
			src, t := specGraph(g).Build(), tg.build(tf)
			if !sub {
				copyGraph(src, t, tf)
				both(srcTgt, [2]*World{src, t})
				sel := make([]int, nn)
				for i := range sel {
					sel[i] = -2
					if i%3 == 1 {
						sel[i] = -1
					}
				}
				copySelected(src, t, tf, sel, n%2 == 0)
			} else {
				nm := map[*lpg.Node]*lpg.Node{}
				copySubgraph(src, t, tf, 0, nm)
				copySubgraph(src, t, tf, nn-1, nm)
				copySubgraph(src, t, tf, nn/2, map[*lpg.Node]*lpg.Node{})
			}
			both(srcTgt, [2]*World{src, t})
			c.st.Checks += src.checks + t.checks
			c.st.States++
			c.st.Traces++
			c.st.Transitions += 3
		})
	})
}

// ---- C22

func nastyCompareTasks(th bool) []Task {
	var ts []Task
	items := []string{"", "\x00", "\x01", " ", "!", "\"", "+", ",", "/", "0", "[", "]", "a", "a\x00", "a ", "a,", "a, a", "a\x00a", "x", "\x7f", "é", "\xff", "\xff\xff"}
	for s := 0; s < 4; s++ {
		ts = append(ts, Task{Name: fmt.Sprintf("nasty-strings/%d", s), Run: func(c *Ctx) {
			var vals []val
			for _, x := range specialStrings {
				vals = append(vals, vs(x))
			}
			var lists []val
			for _, x := range items {
				lists = append(lists, vl(vs(x)))
				for _, y := range items {
					lists = append(lists, vl(vs(x), vs(y)))
				}
			}
			for _, x := range []string{"", ",", "a", "a,", " "} {
				for _, y := range []string{"", ",", "a", "a,", " "} {
					for _, z := range []string{"", ",", "a", "a,", " "} {
						lists = append(lists, vl(vs(x), vs(y), vs(z)))
					}
				}
			}
			for gi, group := range [][]val{vals, lists} {
				for i, a := range group {
					if i%4 != s {
						continue
					}
					c.Case(func() string { return fmt.Sprintf("%s compared with all of group %d", a, gi) }, func() {
						ra := longReps(a)
						if a.kind == 's' {
							ra = []any{a.s, native{a.s}}
						}
						for _, b := range group {
							want, ok := a.cmp(b)
							if !ok {
								panic("bad test values")
							}
							rb := longReps(b)
							if b.kind == 's' {
								rb = []any{b.s, native{b.s}}
							}
							for _, x := range ra {
								for _, y := range rb {
									if got, p := compare(x, y); p || got != want {
										fail("comparing %s with %s gives %d (panic %v), expected %d", valStr(x), valStr(y), got, p, want)
									}
									c.st.Traces++
								}
							}
							c.st.Transitions++
							c.st.Checks++
						}
					})
					c.st.States++
				}
			}
		}})
	}
	return ts
}

// ---- C23

func hugeStringSetTasks(th bool) []Task {
	var ts []Task
	ts = append(ts, Task{Name: "nasty-strings", Run: func(c *Ctx) {
		for _, x := range specialStrings {
			c.Case(func() string { return fmt.Sprintf("sets with %q", x) }, func() {
				for _, y := range specialStrings {
					m := normLabels([]string{x, y})
					s := lpg.NewStringSet(x, y)
					s2 := lpg.NewStringSet(y)
					s2.Add(x)
					if s.Len() != len(m) || !s.IsEqual(s2) || !sameStrs(s.SortedSlice(), m) || !s.Has(x) || !s.Has(y) || !s.HasAll(x, y) || !s.HasAny("none", y) {
						fail("the set of %q and %q has the contents %q", x, y, s.SortedSlice())
					}
					b, err := json.Marshal(s)
					var l []string
					if err == nil {
						err = json.Unmarshal(b, &l)
					}
					sort.Strings(l)
					if err != nil || !sameStrs(l, m) {
						fail("the set of %q and %q marshals to %s: %v", x, y, b, err)
					}
					var back lpg.StringSet
					if err := json.Unmarshal(b, &back); err != nil || !back.IsEqual(s) || !sameStrs(back.SortedSlice(), m) {
						fail("the set of %q and %q does not survive a JSON round trip as %s: %v", x, y, b, err)
					}
					if got := strings.Split(s.String(), ", "); !strings.Contains(x+y, ", ") {
						sort.Strings(got)
						if !sameStrs(got, m) {
							fail("the set of %q and %q is %q as a string", x, y, s.String())
						}
					}
					s2.Remove(x)
					if s2.Has(x) || x != y && !s2.Has(y) || s2.IsEqual(s) {
						fail("after removing %q from the set of %q and %q: %q", x, x, y, s2.SortedSlice())
					}
					c.st.Checks += 5
					c.st.Traces++
					c.st.Transitions += 4
				}
				c.st.States++
			})
		}
	}})
	for sh := 0; sh < 4; sh++ {
		ts = append(ts, Task{Name: fmt.Sprintf("sizes/%d", sh), Run: func(c *Ctx) {
			sizes := append(wideSizes(dt(th, 40, 70), 70), hugeSizes...)
			for si, n := range sizes {
				if si%4 != sh {
					continue
				}
				c.Case(func() string {
					return fmt.Sprintf("sets of %d strings, compared with sets that differ in one or two of them", n)
				}, func() {
					var all []string
					for i := 0; i < n; i++ {
						all = append(all, fmt.Sprintf("%c%d", 'a'+i%7, i))
					}
					build := func(l []string, how int) lpg.StringSet {
						switch how {
						case 0:
							return lpg.NewStringSet(l...)
						case 1:
							s := lpg.NewStringSet()
							for _, x := range l {
								s.Add(x)
							}
							return s
						case 2:
							s := lpg.NewStringSet(l[:len(l)/2]...).Clone()
							s.AddSet(lpg.NewStringSet(l[len(l)/2:]...))
							return s
						}
						s := lpg.NewStringSet(append([]string{"gone"}, l...)...)
						s.Remove("gone")
						return s
					}
					for _, at := range uniq([]int{0, 1 % n, n / 2, n - 1}) {
						less := append(append([]string{}, all[:at]...), all[at+1:]...)
						for _, o := range [][]string{all, less, append(append([]string{}, less...), "zz"), append(append([]string{}, all...), "zz"), {"zz"}, {all[at]}, {all[at], "zz"}, {}} {
							for how := 0; how < 4; how++ {
								a, b := build(all, how), build(o, (how+at)%4)
								eq := func(got, want bool, what string) {
									c.st.Checks++
									if got != want {
										fail("%s of the set and %d strings (%q...) is %v", what, len(o), clip(strings.Join(o, ","), 60), got)
									}
								}
								so := append([]string{}, o...)
								sort.Strings(so)
								sa := append([]string{}, all...)
								sort.Strings(sa)
								any := false
								for _, x := range o {
									any = any || hasStr(sa, x)
								}
								eq(a.IsEqual(b), sameStrs(sa, so), "IsEqual")
								eq(b.IsEqual(a), sameStrs(sa, so), "IsEqual, reversed,")
								eq(a.HasAllSet(b), hasAll(sa, so), "HasAllSet")
								eq(b.HasAllSet(a), hasAll(so, sa), "HasAllSet, reversed,")
								eq(a.HasAll(o...), hasAll(sa, so), "HasAll")
								eq(a.HasAnySet(b), any, "HasAnySet")
								eq(b.HasAnySet(a), any, "HasAnySet, reversed,")
								eq(a.HasAny(o...), any, "HasAny")
								eq(b.HasAny(all...), any, "HasAny, reversed,")
								eq(a.Len() == n && b.Len() == len(o), true, "Len")
								// what is done to a clone of one does not show in the other
								x, y := a.Clone(), a.Clone()
								x.AddSet(b)
								y.Remove(o...)
								eq(sameStrs(x.SortedSlice(), union(sa, so)), true, "AddSet")
								eq(sameStrs(y.SortedSlice(), minus(sa, so)), true, "Remove")
								eq(sameStrs(a.SortedSlice(), sa), true, "after changing clones, SortedSlice")
								c.st.Traces++
								c.st.Transitions += 4
							}
						}
					}
					c.st.States++
				})
			}
		}})
	}
	return ts
}

// ---- C24

func hugeSetTasks(th bool) []Task {
	var ts []Task
	for _, n := range []int{130, 300} {
		for _, stride := range []int{1, 7, n - 1} {
			ts = append(ts, Task{Name: fmt.Sprintf("ramp-%d/%d", n, stride), Run: func(c *Ctx) {
				for mode := 0; mode < 3; mode++ {
					c.Case(func() string {
						return fmt.Sprintf("%d elements added and removed with stride %d, mode %d", n, stride, mode)
					}, func() {
						w := setWorldOf(n)
						add := func(i int) {
							w.ns.Add(w.N[i])
							w.es.Add(w.E[i])
							w.nm.Add(w.N[i])
							w.inNS[i], w.inES[i], w.inNM[i] = true, true, true
						}
						del := func(i int) {
							w.ns.Remove(w.N[i])
							w.es.Remove(w.E[i])
							w.nm.Remove(w.N[i])
							w.inNS[i], w.inES[i], w.inNM[i] = false, false, false
						}
						look := func(k int) {
							w.observeNodeSet()
							w.observeEdgeSet()
							if k%16 == 0 {
								w.observeNodeMap()
							}
							c.st.States++
							c.st.Transitions++
						}
						for k := 0; k < 2*n; k++ {
							i := k * stride % n
							switch {
							case k < n:
								add(i)
								if mode == 1 && k > 0 { // twice
									add((k - 1) * stride % n)
								}
							case mode == 2: // remove two, add one again
								del(i)
								del((i + 1) % n)
								add((i + 1) % n)
							default:
								del(i)
							}
							if k < 70 || k%7 == 0 {
								look(k)
							}
						}
						look(0)
						c.st.Traces++
						c.st.Checks += w.checks
					})
				}
			}})
		}
	}
	return append(ts, manyLabelTasks(th)...)
}

// manyLabelTasks: label maps over many labels. Every node has two labels (all
// pairs), a run of neighbouring labels, or all labels from one on.
func manyLabelTasks(th bool) []Task {
	type shape struct {
		name  string
		max   int
		nodes func(n int) [][]int
	}
	shapes := []shape{
		{"one node for each pair of labels", 24, func(n int) (out [][]int) {
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					out = append(out, []int{i, j})
				}
			}
			return
		}},
		{"one node with the first and the last label, one node for each label", 300, func(n int) [][]int {
			out := [][]int{{0, n - 1}}
			for i := 0; i < n; i++ {
				out = append(out, []int{i})
			}
			return out
		}},
		{"one node for each label, with all labels from there on", 64, func(n int) (out [][]int) {
			for i := 0; i < n; i++ {
				var l []int
				for j := i; j < n; j++ {
					l = append(l, j)
				}
				out = append(out, l)
			}
			return
		}},
		{"one node with all labels, one with none", 300, func(n int) [][]int {
			var l []int
			for j := 0; j < n; j++ {
				l = append(l, j)
			}
			return [][]int{l, nil}
		}},
	}
	var ts []Task
	for si, sh := range shapes {
		sh := sh
		for part := 0; part < 2; part++ {
			part := part
			ts = append(ts, Task{Name: fmt.Sprintf("many-labels-%d/%d", si, part), Run: func(c *Ctx) {
				for k, n := range append(wideSizes(dt(th, 20, 40), 70), 100, 129, 300) {
					if k%2 != part || n > sh.max || len(sh.nodes(n)) == 0 {
						continue
					}
					for off := 0; off < 8; off++ {
						n, off := n, off
						c.Case(func() string {
							return fmt.Sprintf("%d labels, %s, map iteration starting at %d", n, sh.name, off)
						}, func() {
							defer mapDefault(0)
							mapDefault(off)
							w := &setWorld{World: newWorld(), ns: lpg.NewNodeSet(), es: lpg.NewEdgeSet(), nm: lpg.NewNodeMap()}
							lb := func(i int) string { return fmt.Sprint("L", i) }
							names := func(l []int) (out []string) {
								for _, i := range l {
									out = append(out, lb(i))
								}
								return
							}
							nodes := sh.nodes(n)
							for i, l := range nodes {
								w.NewNode(names(l), nil)
								w.inNM = append(w.inNM, true)
								w.nm.Add(w.N[i])
							}
							look := func() {
								all := where(w.inNM)
								w.expect(w.nodesOf(w.nm.Iterator()), all, "NodeMap.Iterator")
								w.drained(w.nm.Iterator(), len(all), "NodeMap.Iterator")
								w.expect(w.nodesOf(w.nm.IteratorAllLabels(lpg.StringSet{})), all, "NodeMap.IteratorAllLabels(zero StringSet)")
								for _, ls := range [][]string{{lb(0)}, {lb(n - 1)}, {lb(0), lb(n - 1)}, {lb(n / 2), lb(n - 1)}, {lb(n)}, {lb(0), lb(n)}, names(nodes[0])} {
									want := []int{}
									for _, i := range all {
										if hasAll(w.M.N[i].Labels, ls) {
											want = append(want, i)
										}
									}
									w.expect(w.nodesOf(w.nm.IteratorAllLabels(set(ls...))), want, "NodeMap.IteratorAllLabels(%q)", ls)
									var g []int
									for _, i := range w.M.nodes(allN) {
										if hasAll(w.M.N[i].Labels, ls) {
											g = append(g, i)
										}
									}
									if g == nil {
										g = []int{}
									}
									w.expect(w.nodesOf(w.G.GetNodesWithAllLabels(set(ls...))), g, "Graph.GetNodesWithAllLabels(%q)", ls)
								}
								c.st.States++
							}
							look()
							// relabel some, then remove, the first first or the last first
							for i := 0; i < len(nodes); i += 1 + len(nodes)/3 {
								old := w.N[i].GetLabels()
								nl := names([]int{i % n, (i + 7) % n, n - 1})
								w.nm.Replace(w.N[i], old, set(nl...))
								w.SetLabels(i, nl)
								c.st.Transitions++
							}
							look()
							for i := range nodes {
								x := i
								if off%2 == 1 {
									x = len(nodes) - 1 - i
								}
								w.nm.Remove(w.N[x])
								w.inNM[x] = false
								c.st.Transitions++
								if i%(1+len(nodes)/5) == 0 {
									look()
								}
							}
							look()
							if !w.nm.IsEmpty() {
								fail("NodeMap.IsEmpty() is false after all nodes are removed")
							}
							c.st.Traces++
							c.st.Checks += w.checks
						})
					}
				}
			}})
		}
	}
	return ts
}

// ---- C25

func hugeDOTTasks(th bool) []Task {
	return wideTasks("huge", nil, hugeSizes, []int{0}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		c.Case(func() string { return f.label(n, k) + ", default renderers, and with elements excluded" }, func() {
			w := specGraph(g).Build()
			w.checkDOT("G")
			w.checkDOTExcluding(0, 0, true)
			w.checkDOTExcluding(0x1555555555555555, 0x0333333333333333, false)
			c.st.Checks += w.checks
			c.st.Traces += 3
			c.st.Transitions += 3
		})
		c.st.States++
	})
}

// ---- C21

func hugeIsoTasks(th bool) []Task {
	return wideTasks("huge", nil, hugeSizes, []int{2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		nn, ne := len(g.Nodes), len(g.Edges)
		gs := append([]*GSpec{g}, g.oneChanged(ne/2)...)
		gs = append(gs, g.oneChanged(ne-1)...)
		for i, g2 := range gs {
			c.Case(func() string { return fmt.Sprintf("%s, compared with its variant %d", f.label(n, k), i) }, func() {
				w1, w2 := specWorld(g, nil, nil), specWorld(g2, revOrder(nn), interleaved(ne))
				q := &equivalences[0]
				want := g.classes(q.n1, q.e1).iso(g2.classes(q.n2, q.e2))
				got, err := checkIso(g, g2, w1, w2, q, context.Background(), nil)
				if err != nil || got != want {
					fail("the answer is %v, error %v, expected %v", got, err, want)
				}
				c.st.Traces++
				c.st.Transitions++
				c.st.Checks++
			})
			c.st.States++
		}
	})
}

// ---- C06

func hugeIteratorTasks(th bool) []Task {
	return wideTasks("huge", nil, hugeSizes, []int{0}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		for _, ix := range indexKinds {
			c.Case(func() string { return fmt.Sprintf("%s, %s: every iterator drained", f.label(n, k), ixLabel(ix)) }, func() {
				w := variant{ix, 0}.world()
				g.fill(w, nil, nil)
				fs := w.factories()
				for i := range fs {
					if i > 80 && i < len(fs)-36 && i/18 != len(fs)/36 {
						continue
					}
					n := w.drainFrom(&fs[i], 0)
					for _, at := range uniq([]int{min(1, n), n / 2, n}) {
						w.drainFrom(&fs[i], at)
						c.st.Transitions++
					}
					c.st.Traces++
				}
				c.st.States++
				c.st.Checks += w.checks
			})
		}
	})
}
