package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// ---- C16: large graphs, many labels and properties, long strings

// wideContents are graphs of one parameter in the contents of their elements.
func wideContents(n int) []ZG {
	var ls []string
	p := PM{}
	for i := 0; i < n; i++ {
		ls = append(ls, fmt.Sprint("L", i))
		p[fmt.Sprint("k", i)] = i
	}
	long := strings.Repeat("a\"é\n", n)
	nest := any(1)
	for i := 0; i < n; i++ {
		nest = []any{nest, PM{"k": i}}
	}
	return []ZG{
		{fmt.Sprintf("%d labels and properties", n), func() *World {
			w := newWorld()
			w.NewNode(ls, copyPM(p))
			w.NewNode([]string{"A"}, copyPM(p))
			w.NewEdge(0, 1, "x", copyPM(p))
			w.NewEdge(1, 1, "", nil)
			return w
		}},
		{fmt.Sprintf("strings of %d characters", 4*n), func() *World {
			w := newWorld()
			w.NewNode([]string{long, "B"}, PM{"p": long, "q": 1})
			w.NewNode([]string{"A"}, PM{long: 1})
			w.NewEdge(0, 1, long, PM{"p": long})
			w.NewEdge(1, 0, "x", PM{long: 2, "z": long})
			return w
		}},
		{fmt.Sprintf("values nested %d deep", n), func() *World {
			w := newWorld()
			w.NewNode([]string{"A"}, PM{"p": nest})
			w.NewNode(nil, nil)
			w.NewEdge(0, 1, "x", PM{"p": nest, "q": nest})
			return w
		}},
	}
}

func wideJSONTasks(th bool) []Task {
	cs := codecs()
	tgs := targets()
	one := func(c *Ctx, name string, mk func() *World) {
		for ci := range cs {
			cd := &cs[ci]
			for _, separate := range []bool{false, true} {
				c.Case(func() string { return fmt.Sprintf("graph %s, codec %s, separate edges %v", name, cd.name, separate) }, func() {
					w := mk()
					in := lpg.MapInterner{}
					for i, tg := range tgs {
						mapDefault((3*i + ci) % 8)
						w.roundTrip(cd, separate, tg, nil)
						w.roundTrip(cd, separate, tg, in)
						c.st.Traces += 2
						c.st.Transitions += 4
					}
					mapDefault(0)
					c.st.States++
					c.st.Checks += w.checks
				})
			}
		}
	}
	ts := wideTasks("wide", nil, wideSizes(dt(th, 12, 24), dt(th, 41, 70)), []int{0, 2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		one(c, f.label(n, k), specGraph(g).Build)
	})
	for s := 0; s < 4; s++ {
		ts = append(ts, Task{Name: fmt.Sprintf("wide-contents/%d", s), Run: func(c *Ctx) {
			sizes := append(wideSizes(dt(th, 12, 40), dt(th, 34, 70)), 64, 100, 255, 256, 1000, 1024, 1025, 4096, 16384)
			for i, n := range sizes {
				if i%4 != s {
					continue
				}
				for zi, z := range wideContents(n) {
					if zi != 1 && n > 100 {
						continue
					}
					one(c, z.Name, z.Build)
				}
			}
		}})
	}
	return ts
}

// ---- C17: long documents

func revOrder(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = n - 1 - i
	}
	return out
}

// interleaved: first the odd positions, then the even ones
func interleaved(n int) []int {
	var out []int
	for i := 1; i < n; i += 2 {
		out = append(out, i)
	}
	for i := 0; i < n; i += 2 {
		out = append(out, i)
	}
	return out
}

func wideDecodeTasks(th bool) []Task {
	return wideTasks("wide", nil, wideSizes(dt(th, 12, 24), dt(th, 41, 62)), []int{0, 2}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		nn, ne := len(g.Nodes), len(g.Edges)
		want := func() *SG {
			w := newWorld()
			g.fill(w, nil, nil)
			return w.M.sg(func(p PM) string { return typedStr(normProps(p)) })
		}()
		sparse := make([]int, nn)
		for i := range sparse {
			sparse[i] = (i*37 + 5) % 1009 * 1000003
		}
		orders := func(n int) [][]int { return [][]int{nil, revOrder(n), interleaved(n)} }
		for _, nums := range [][]int{nil, revOrder(nn), sparse} {
			for oi := 0; oi < 9; oi++ {
				for _, emb := range []int{0, 1<<ne - 1, 0x5555555555555555 & (1<<ne - 1)} {
					l := layout{numbers: nums, norder: orders(nn)[oi/3], eorder: orders(ne)[oi%3], embed: emb, edges1st: (oi+emb)%2 == 0, space: oi%4 == 3}
					doc, _ := g.write(&l)
					c.Case(func() string {
						return fmt.Sprintf("%s, written in order %v of nodes and %v of edges, numbers %v, embedded edges %b, edges first %v", f.label(n, k), l.norder, l.eorder, l.numbers, emb, l.edges1st)
					}, func() {
						for _, chunk := range []int{0, 1, 7, 64, 511, 512, 513} {
							r := &cutReader{data: doc, err: io.EOF, withE: chunk%2 == 0, zero: chunk == 64}
							if chunk > 0 {
								r.chunks = []int{chunk}
							}
							got, err := decode(lpg.NewGraph(), lpg.JSON{}, r)
							if err != nil {
								fail("Decode returns the error %v for the valid document %s", err, doc)
							}
							if !got.iso(want) {
								fail("read in chunks of %d, decoding gives\n%sexpected\n%sdocument %s", chunk, got, want, doc)
							}
							c.st.Traces++
							c.st.Transitions++
						}
						c.st.States++
					})
				}
			}
		}
		// broken documents
		for _, emb := range []int{0, 1<<ne - 1} {
			for first := 0; first < 2; first++ {
				l := layout{embed: emb, edges1st: first == 1}
				doc, _ := g.write(&l)
				c.Case(func() string {
					return fmt.Sprintf("%s, embedded edges %v, edges first %v: truncated, reader failures, one edge end unknown", f.label(n, k), emb != 0, first == 1)
				}, func() {
					step := 1
					if len(doc) > 400 {
						step = 7
					}
					for i := 0; i < len(doc); i += step {
						if _, err := decode(lpg.NewGraph(), lpg.JSON{}, &cutReader{data: doc[:i], err: io.EOF}); err == nil {
							fail("Decode accepts the document cut off after %d bytes: %s", i, doc[:i])
						}
						if _, err := decode(lpg.NewGraph(), lpg.JSON{}, &cutReader{data: doc[:i], err: errInjected, chunks: []int{100}}); !errors.Is(err, errInjected) {
							fail("the reader fails after %d bytes, but Decode returns the error %v: %s", i, err, doc[:i])
						}
						c.st.Traces += 2
						c.st.Transitions += 2
					}
					for _, key := range []string{`"to":`, `"from":`} {
						parts := bytes.Split(doc, []byte(key))
						for i := 1; i < len(parts); i++ {
							rest := bytes.TrimLeft(parts[i], "-0123456789")
							bad := bytes.Join(parts[:i], []byte(key))
							bad = append(append(append(append([]byte{}, bad...), key...), "123456"...), rest...)
							if i+1 < len(parts) {
								bad = append(append(bad, key...), bytes.Join(parts[i+1:], []byte(key))...)
							}
							if _, err := decode(lpg.NewGraph(), lpg.JSON{}, bytes.NewReader(bad)); err == nil {
								fail("Decode accepts the document although an edge names an unknown node: %s", bad)
							}
							c.st.Traces++
							c.st.Transitions++
						}
					}
					c.st.States++
				})
			}
		}
	})
}

// ---- C18: long outputs

func wideFailTasks(th bool) []Task {
	outs := outputs()
	return wideTasks("wide", nil, wideSizes(dt(th, 12, 20), dt(th, 41, 70)), []int{0}, func(c *Ctx, f wideFamily, n, k int, g *GSpec) {
		for oi := range outs {
			o := &outs[oi]
			c.Case(func() string { return f.label(n, k) + ", " + o.name }, func() {
				w := newWorld()
				g.fill(w, nil, nil)
				mapDefault((n + oi) % 8)
				if n <= dt(th, 6, 12) {
					w.failWrites(c, o)
				} else {
					w.failCalls(c, o)
				}
				mapDefault(0)
				c.st.States++
				c.st.Checks += w.checks
			})
		}
		if n <= 6 {
			c.Case(func() string { return f.label(n, k) + ", failing functions" }, func() {
				w := newWorld()
				g.fill(w, nil, nil)
				w.failCallbacks(c)
				c.st.Checks += w.checks
			})
		}
	})
}

// failCalls lets every call of the writer fail, and some bytes.
func (w *World) failCalls(c *Ctx, o *output) {
	ref := &faultWriter{bytes: -1}
	if err := o.run(w, ref); err != nil {
		fail("%s returns the error %v although nothing fails", o.name, err)
	}
	o.ok(w, ref.buf.Bytes())
	var fs []*faultWriter
	for i := 1; i <= ref.calls; i++ {
		fs = append(fs, &faultWriter{failAt: i, bytes: -1})
	}
	for i := 0; i < ref.buf.Len(); i += 13 {
		fs = append(fs, &faultWriter{bytes: i})
	}
	for _, f := range fs {
		err := o.run(w, f)
		c.st.Traces++
		c.st.Transitions++
		w.checks++
		if f.failed && !errors.Is(err, errInjected) {
			fail("%s: writing failed at call %d or after %d bytes (%d calls and %d bytes in all), but the result is %v", o.name, f.failAt, f.bytes, ref.calls, ref.buf.Len(), err)
		}
		if !f.failed {
			if err != nil {
				fail("%s returns the error %v although nothing failed", o.name, err)
			}
			o.ok(w, f.buf.Bytes())
		}
	}
}
