package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// decode runs the library on the reader and returns what it built.
func decode(g *lpg.Graph, j lpg.JSON, r io.Reader) (*SG, error) {
	if err := j.Decode(g, json.NewDecoder(r)); err != nil {
		return nil, err
	}
	return summary(g, typedStr), nil
}

// checkDoc decodes doc and compares with the reference reading of it.
func checkDoc(doc []byte, how string, mk func(data []byte) io.Reader) (verdict int) {
	want, verdict, why := refDoc(doc, typedStr)
	if mk == nil {
		mk = func(d []byte) io.Reader { return bytes.NewReader(d) }
	}
	got, err := decode(lpg.NewGraph(), lpg.JSON{}, mk(doc))
	switch {
	case verdict == 0 && err == nil:
		fail("%s: Decode accepts the document although %s\ndocument %s\nit builds\n%s", how, why, doc, got)
	case verdict == 1 && err != nil:
		fail("%s: Decode returns the error %v for the valid document %s", how, err, doc)
	case verdict == 1 && !got.iso(want):
		fail("%s: decoding gives\n%sexpected\n%sdocument %s", how, got, want, doc)
	}
	return verdict
}

// layout is a choice of how to write a graph down.
type layout struct {
	numbers  []int
	norder   []int
	eorder   []int
	embed    int // bit i: edge i is embedded
	edges1st bool
	space    bool
	extra    string // a member to insert, `"key":value`
	extraAt  int    // at this insertion point, counted over the document
}

type docWriter struct {
	strings.Builder
	l     *layout
	point int
}

// embedded: which edges are written inside of their node. Those beyond the 62nd
// are written like the 62nd.
func (l *layout) embedded(e int) bool { return l.embed&(1<<min(e, 61)) != 0 }

// members writes an object or the inside of it, with the extra member.
func (d *docWriter) object(members ...string) string {
	out := []string{}
	for i := 0; i <= len(members); i++ {
		if d.l.extra != "" && d.point == d.l.extraAt {
			out = append(out, d.l.extra)
		}
		d.point++
		if i < len(members) {
			out = append(out, members[i])
		}
	}
	return "{" + strings.Join(out, ",") + "}"
}

// write renders the spec in the layout; points is the number of insertion points.
func (g *GSpec) write(l *layout) (doc []byte, points int) {
	d := &docWriter{l: l}
	num := func(i int) int {
		if l.numbers != nil {
			return l.numbers[i]
		}
		return i
	}
	edge := func(i int, embedded bool) string {
		e, ek := g.Edges[i], g.EKs[g.Edges[i].Kind]
		var m []string
		if !embedded {
			m = append(m, fmt.Sprintf(`"from":%d`, num(e.From)))
		}
		m = append(m, fmt.Sprintf(`"to":%d`, num(e.To)))
		if ek.L != "" {
			m = append(m, `"label":`+js(ek.L))
		}
		if len(ek.P) > 0 {
			m = append(m, `"properties":`+js(ek.P))
		}
		return d.object(m...)
	}
	var ns, es []string
	for k := range g.Nodes {
		i := k
		if l.norder != nil {
			i = l.norder[k]
		}
		nk := g.NKs[g.Nodes[i]]
		m := []string{fmt.Sprintf(`"n":%d`, num(i))}
		if len(nk.L) > 0 {
			m = append(m, `"labels":`+js(nk.L))
		}
		if len(nk.P) > 0 {
			m = append(m, `"properties":`+js(nk.P))
		}
		var in []string
		for ei, e := range g.Edges {
			if e.From == i && l.embedded(ei) {
				in = append(in, edge(ei, true))
			}
		}
		if in != nil {
			m = append(m, `"edges":[`+strings.Join(in, ",")+"]")
		}
		ns = append(ns, d.object(m...))
	}
	for k := range g.Edges {
		i := k
		if l.eorder != nil {
			i = l.eorder[k]
		}
		if !l.embedded(i) {
			es = append(es, edge(i, false))
		}
	}
	var top []string
	if ns != nil {
		top = append(top, `"nodes":[`+strings.Join(ns, ",")+"]")
	}
	if es != nil {
		top = append(top, `"edges":[`+strings.Join(es, ",")+"]")
		if l.edges1st && len(top) == 2 {
			top[0], top[1] = top[1], top[0]
		}
	}
	doc = []byte(d.object(top...))
	if l.space {
		b := &bytes.Buffer{}
		json.Indent(b, doc, "\r\n\t ", " \t")
		doc = append([]byte(" \n\t"), b.Bytes()...)
	}
	return doc, d.point
}

// baseDocs are documents that together have every feature.
func baseDocs() [][]byte {
	nks := []NK{{}, {L: []string{"A"}}, {L: []string{"A", "é\""}, P: PM{"p": 1, "s": "x\\"}}}
	eks := []EK{{L: "x"}, {}, {L: "y", P: PM{"p": []any{1, PM{"k": nil}}, "q": true}}}
	g := &GSpec{NKs: nks, EKs: eks, Nodes: []int{2, 1, 0}, Edges: []GE{{0, 1, 2}, {1, 0, 0}, {2, 2, 1}}}
	small := &GSpec{NKs: nks, EKs: eks, Nodes: []int{1, 0}, Edges: []GE{{0, 1, 0}, {1, 0, 1}}}
	var out [][]byte
	add := func(g *GSpec, l layout) {
		d, _ := g.write(&l)
		out = append(out, d)
	}
	add(g, layout{})
	add(g, layout{embed: 7})
	add(g, layout{embed: 2, edges1st: true, numbers: []int{7, -3, 0}})
	add(small, layout{embed: 1})
	add(small, layout{edges1st: true, space: true})
	add(small, layout{extra: `"u":{"nodes":[{"n":5}],"v":[[],"edges"]}`, extraAt: 12})
	out = append(out, []byte(`{}`), []byte(`{"nodes":[{"n":0}],"x":"nodes","edges":[]}`), []byte(`{"edges":[]}`))
	return out
}

// values replaced inside a document
var replacements = []string{`1`, `-7`, `1.5`, `"n"`, `""`, `null`, `true`, `[]`, `{}`, `[1]`, `{"n":1}`, `[{"n":0}]`, `["A"]`, `99999999999999999999`}

// replaceAll returns the document with each value replaced by each replacement.
func replaceAll(doc []byte) [][]byte {
	var spans [][2]int
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	// record the span of every value
	var value func()
	value = func() {
		// skip to the start of the value
		start := int(d.InputOffset())
		for start < len(doc) && strings.ContainsRune(" \n\t\r:,", rune(doc[start])) {
			start++
		}
		t, err := d.Token()
		if err != nil {
			panic(err)
		}
		if del, ok := t.(json.Delim); ok {
			for d.More() {
				if del == '{' {
					d.Token()
				}
				value()
			}
			d.Token()
		}
		spans = append(spans, [2]int{start, int(d.InputOffset())})
	}
	value()
	var out [][]byte
	for _, s := range spans {
		for _, r := range replacements {
			b := append([]byte{}, doc[:s[0]]...)
			b = append(b, r...)
			out = append(out, append(b, doc[s[1]:]...))
		}
	}
	return out
}

func init() {
	register(&Prop{
		ID: "C17",
		Bounds: "all graphs up to isomorphism with up to 2 nodes and 2 edges (3 nodes: 2 edges over one kind; thorough: 3) and properties, each written in every node order, edge order, choice of embedded edges, order of sections, 5 numberings, with and without white space; 12 unknown members at every position; " +
			"9 base documents: every truncation, every reader failure position (with and without data), every split into two chunks, byte-wise reading, every replacement of a value by 14 others, every byte deleted, replaced by and preceded by each of 16 others (thorough: 40, and pairs of edits on the small documents), every failing call of the property unmarshaler, every edge end unknown; two documents in one stream; 29 special node numbers (limits of integer types) in pairs; 8 parametrised families of graphs in sizes up to 40 (fewer questions: up to 300), each in 81 layouts and 7 chunkings of the reader, truncated, with reader failures and with each edge end unknown; up to 10001 edges ahead of their nodes; unknown members of 9 forms nested up to 2500 deep, long, or many",
		Assume: []string{"Documents with repeated node numbers or repeated sections are only required not to crash; what is read after the end of the document is not looked at."},
		Tasks: func(th bool) []Task {
			var ts []Task
			nks := []NK{{}, {L: []string{"A"}, P: PM{"p": 1}}}
			eks := []EK{{L: "x"}, {P: PM{"p": "é"}}}
			gs := concat(graphFamily{n: 0}.list(), graphFamily{n: 1, maxE: 2, nks: nks, eks: eks}.list(), graphFamily{n: 2, maxE: dt(th, 2, 3), nks: nks, eks: eks}.list(),
				graphFamily{n: 3, maxE: dt(th, 2, 3), nks: nks[1:], eks: eks[:1]}.list())
			numberings := [][]int{nil, {1, 2, 3}, {2, 1, 0}, {100, -5, 0}, {0, 2147483647, -2147483648}}
			shards := 12
			for s := 0; s < shards; s++ {
				s := s
				ts = append(ts, Task{Name: fmt.Sprintf("layouts/%d", s), Run: func(c *Ctx) {
					for gi, g := range gs {
						if gi%shards != s {
							continue
						}
						want := func() *SG {
							w := newWorld()
							g.fill(w, nil, nil)
							return w.M.sg(func(p PM) string { return typedStr(normProps(p)) })
						}()
						for _, np := range perms(len(g.Nodes)) {
							np := np
							c.Case(func() string {
								return fmt.Sprintf("graph %s, nodes in order %v, written in every layout", g, np)
							}, func() {
								for _, ep := range perms(len(g.Edges)) {
									for emb := 0; emb < 1<<len(g.Edges); emb++ {
										for _, nums := range numberings {
											for k := 0; k < 4; k++ {
												l := layout{numbers: nums, norder: np, eorder: ep, embed: emb, edges1st: k&1 != 0, space: k&2 != 0}
												doc, _ := g.write(&l)
												if v := checkDoc(doc, "layout", nil); v != 1 {
													panic("bad test document " + string(doc))
												}
												if k == 1 {
													for _, tg := range targets() {
														gr, prior := tg.make()
														got, err := decode(gr, lpg.JSON{}, bytes.NewReader(doc))
														if err != nil {
															fail("Decode returns the error %v for the valid document %s", err, doc)
														}
														if w := prior.plus(want); !got.iso(w) {
															fail("decoding into %s gives\n%sexpected\n%sdocument %s", tg.name, got, w, doc)
														}
													}
												}
												c.st.Traces++
												c.st.Transitions++
											}
										}
									}
								}
								c.st.States++
							})
						}
					}
				}})
				extras := []string{`"u":1`, `"u":"nodes"`, `"u":null`, `"u":[]`, `"u":{}`, `"u":{"nodes":[{"n":99,"edges":[{"to":98}]}]}`, `"u":[[{"edges":[{"from":98,"to":97}]}]]`, `"u":{"a":{"b":[1,{"c":2}]},"nodes":1}`, `"":true`, `"u":["}","]","{"]`, `"u":-1.5e3`, `"x":{"":[{}]}`}
				ts = append(ts, Task{Name: fmt.Sprintf("unknown-members/%d", s), Run: func(c *Ctx) {
					for gi, g := range gs {
						if gi%shards != s {
							continue
						}
						c.Case(func() string {
							return fmt.Sprintf("graph %s, with an unknown member at every position", g)
						}, func() {
							for _, emb := range []int{0, 1, 1<<len(g.Edges) - 1} {
								for k := 0; k < 2; k++ {
									_, points := g.write(&layout{embed: emb, edges1st: k == 1})
									for _, x := range extras {
										for at := 0; at < points; at++ {
											doc, _ := g.write(&layout{embed: emb, edges1st: k == 1, extra: x, extraAt: at})
											if v := checkDoc(doc, "unknown member", nil); v != 1 {
												panic("bad test document " + string(doc))
											}
											c.st.Traces++
											c.st.Transitions++
										}
									}
								}
							}
							c.st.States++
						})
					}
				}})
			}
			for di, doc := range baseDocs() {
				di, doc := di, doc
				each := func(kind string, n int, f func(i int)) Task {
					return Task{Name: fmt.Sprintf("doc%d/%s", di, kind), Run: func(c *Ctx) {
						for i := 0; i < n; i++ {
							i := i
							c.Case(func() string { return fmt.Sprintf("document %s, %s %d", doc, kind, i) }, func() { f(i) })
							c.st.States++
							c.st.Traces++
							c.st.Transitions++
						}
					}}
				}
				trimmed := len(bytes.TrimRight(doc, " \n\t\r"))
				ts = append(ts, each("truncated at", trimmed, func(i int) {
					for _, e := range []error{io.EOF, io.ErrUnexpectedEOF} {
						for k := 0; k < 2; k++ {
							if _, err := decode(lpg.NewGraph(), lpg.JSON{}, &cutReader{data: doc[:i], err: e, withE: k == 1}); err == nil {
								fail("Decode accepts the document cut off after %d bytes: %s", i, doc[:i])
							}
						}
					}
				}))
				ts = append(ts, each("reader failure at", trimmed, func(i int) {
					for k := 0; k < 4; k++ {
						r := &cutReader{data: doc[:i], err: errInjected, withE: k&1 == 1}
						if k&2 != 0 {
							r.chunks = []int{1}
						}
						_, err := decode(lpg.NewGraph(), lpg.JSON{}, r)
						if err == nil {
							fail("Decode succeeds although the reader fails after %d bytes: %s", i, doc[:i])
						}
						if !errors.Is(err, errInjected) {
							fail("the reader fails after %d bytes (%s), but Decode returns another error: %v", i, doc[:i], err)
						}
					}
				}))
				ts = append(ts, each("split at", len(doc)+1, func(i int) {
					for k := 0; k < 8; k++ {
						checkDoc(doc, fmt.Sprint("split at ", i), func(d []byte) io.Reader {
							return &cutReader{data: d, chunks: [][]int{{max(i, 1), len(d)}, {max(i, 1)}}[k&1], err: io.EOF, withE: k&2 != 0, zero: k&4 != 0}
						})
					}
				}))
				reps := replaceAll(doc)
				ts = append(ts, each("replacement", len(reps), func(i int) { checkDoc(reps[i], "value replaced", nil) }))
				alphabet := []byte("{}[]:,\"0-e x\\t/n")
				if th {
					alphabet = []byte("{}[]:,\"'0123456789-+.eE x\\tfnu/\x00\x01\x7f\xff\xc3\n_")
				}
				mutate := func(doc []byte, f func(m []byte)) {
					for i := 0; i < len(doc); i++ {
						f(append(append([]byte{}, doc[:i]...), doc[i+1:]...))
						for _, b := range alphabet {
							if doc[i] != b {
								m := append([]byte{}, doc...)
								m[i] = b
								f(m)
							}
							f(append(append(append([]byte{}, doc[:i]...), b), doc[i:]...))
						}
					}
				}
				ts = append(ts, Task{Name: fmt.Sprintf("doc%d/bytes", di), Run: func(c *Ctx) {
					mutate(doc, func(m []byte) {
						c.Case(func() string { return fmt.Sprintf("document %s", m) }, func() { checkDoc(m, "edited", nil) })
						c.st.States++
						c.st.Traces++
						c.st.Transitions++
						if th && len(doc) < 50 {
							mutate(m, func(m2 []byte) {
								c.Case(func() string { return fmt.Sprintf("document %s", m2) }, func() { checkDoc(m2, "edited twice", nil) })
								c.st.States++
								c.st.Traces++
								c.st.Transitions++
							})
						}
					})
				}})
				ts = append(ts, Task{Name: fmt.Sprintf("doc%d/functions and ends", di), Run: func(c *Ctx) {
					// every call of the property unmarshaler fails
					total := 0
					run := func(fail int) error {
						total = 0
						return lpg.JSON{PropertyUnmarshaler: func(k string, v json.RawMessage) (string, any, error) {
							total++
							if total == fail {
								return k, nil, errInjected
							}
							return k, string(v), nil
						}}.Decode(lpg.NewGraph(), json.NewDecoder(bytes.NewReader(doc)))
					}
					c.Case(func() string { return fmt.Sprintf("document %s, no call fails", doc) }, func() {
						if err := run(0); err != nil {
							fail("Decode returns the error %v", err)
						}
					})
					n := total
					for i := 1; i <= n; i++ {
						c.Case(func() string {
							return fmt.Sprintf("document %s, call %d of the property unmarshaler fails", doc, i)
						}, func() {
							err := run(i)
							if !errors.Is(err, errInjected) {
								fail("the property unmarshaler fails, but Decode returns %v", err)
							}
						})
						c.st.States++
						c.st.Traces++
						c.st.Transitions++
					}
					// every edge end is unknown
					for _, key := range []string{`"to":`, `"from":`} {
						parts := strings.Split(string(doc), key)
						for i := 1; i < len(parts); i++ {
							rest := strings.TrimLeft(parts[i], " -0123456789")
							for _, num := range []string{"55", "-1", "1000000"} {
								bad := []byte(strings.Join(parts[:i], key) + key + num + rest)
								if i+1 < len(parts) {
									bad = append(bad, key+strings.Join(parts[i+1:], key)...)
								}
								c.Case(func() string { return fmt.Sprintf("document %s", bad) }, func() {
									if v := checkDoc(bad, "unknown node", nil); v != 0 {
										panic("bad test document " + string(bad))
									}
								})
								c.st.States++
								c.st.Traces++
								c.st.Transitions++
							}
						}
					}
					// several documents in one stream
					for _, second := range baseDocs() {
						c.Case(func() string { return fmt.Sprintf("the documents %s and %s in one stream", doc, second) }, func() {
							d := json.NewDecoder(bytes.NewReader(append(append(append([]byte{}, doc...), '\n'), second...)))
							for _, x := range [][]byte{doc, second} {
								g := lpg.NewGraph()
								if err := (lpg.JSON{}).Decode(g, d); err != nil {
									fail("Decode returns the error %v", err)
								}
								want, _, _ := refDoc(x, typedStr)
								if got := summary(g, typedStr); !got.iso(want) {
									fail("decoding %s from the stream gives\n%sexpected\n%s", x, got, want)
								}
							}
						})
						c.st.States++
						c.st.Traces += 2
						c.st.Transitions += 2
					}
				}})
			}
			return append(append(ts, wideDecodeTasks(th)...), append(append(hugeDecodeTasks(th), forwardTasks(th)...), deepUnknownTasks(th)...)...)
		},
	})
}
