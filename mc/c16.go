package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// jsonValues are property values with special contents.
var jsonValues = []any{1, -3, 0, 1.5, 1e300, "", "a", "<&>", "\u2028\"\\\n\x01", "é😀", true, false, nil, []string{}, []string{"b", "a"}, []int{1, 2}, []any{}, []any{1, "a", nil, []any{"x"}},
	map[string]any{"k": 1, "": 2, "n": map[string]any{}}, map[string]any{}, json.Number("12345678901234567890"), native{5}, &nativePtr{"x"}, json.RawMessage(`{"z":[1, 2]}`)}

var jsonStrings = []string{"", "A", "é<&>", "\"\\\n", "n", "labels", "a b", "\u2028😀"}

// codec is a pair of property functions; map (of the reference) tells what
// happens to a property on a full round trip.
type codec struct {
	name  string
	enc   func(calls *[]string) func(string, any) (string, json.RawMessage, error)
	dec   func(calls *[]string) func(string, json.RawMessage) (string, any, error)
	onEnc func(PM) PM // the properties of the document
	onDec func(PM) PM // the properties of the decoded graph, given those of the document
}

func rec2(calls *[]string, k string, v any) {
	if calls != nil {
		*calls = append(*calls, fmt.Sprintf("%q=%s", k, js(v)))
	}
}

func idPM(p PM) PM { return p }

func codecs() []codec {
	mapPM := func(f func(k string, v any) (string, any)) func(PM) PM {
		return func(p PM) PM {
			out := PM{}
			for k, v := range p {
				if k, v := f(k, v); k != "" {
					out[k] = v
				}
			}
			return out
		}
	}
	plainEnc := func(calls *[]string) func(string, any) (string, json.RawMessage, error) {
		return func(k string, v any) (string, json.RawMessage, error) {
			rec2(calls, k, v)
			b, err := json.Marshal(v)
			return k, b, err
		}
	}
	plainDec := func(calls *[]string) func(string, json.RawMessage) (string, any, error) {
		return func(k string, v json.RawMessage) (string, any, error) {
			rec2(calls, k, v)
			var x any
			err := json.Unmarshal(v, &x)
			return k, x, err
		}
	}
	return []codec{
		{name: "default", onEnc: normProps, onDec: idPM},
		{name: "copying", enc: plainEnc, dec: plainDec, onEnc: mapPM(func(k string, v any) (string, any) { return k, normJSON(v) }), onDec: mapPM(func(k string, v any) (string, any) { return k, v })},
		{name: "renaming", enc: func(calls *[]string) func(string, any) (string, json.RawMessage, error) {
			return func(k string, v any) (string, json.RawMessage, error) {
				rec2(calls, k, v)
				b, err := json.Marshal(v)
				return k + "!", b, err
			}
		}, dec: func(calls *[]string) func(string, json.RawMessage) (string, any, error) {
			return func(k string, v json.RawMessage) (string, any, error) {
				rec2(calls, k, v)
				var x any
				err := json.Unmarshal(v, &x)
				return "<" + k, x, err
			}
		}, onEnc: mapPM(func(k string, v any) (string, any) { return k + "!", normJSON(v) }), onDec: mapPM(func(k string, v any) (string, any) { return "<" + k, v })},
		{name: "dropping when encoding", enc: func(calls *[]string) func(string, any) (string, json.RawMessage, error) {
			return func(k string, v any) (string, json.RawMessage, error) {
				rec2(calls, k, v)
				if k == "p" || k == "r" {
					return "", nil, nil
				}
				b, err := json.Marshal(v)
				return k, b, err
			}
		}, onEnc: mapPM(func(k string, v any) (string, any) {
			if k == "p" || k == "r" {
				return "", nil
			}
			return k, normJSON(v)
		}), onDec: idPM},
		{name: "dropping and replacing when decoding", dec: func(calls *[]string) func(string, json.RawMessage) (string, any, error) {
			return func(k string, v json.RawMessage) (string, any, error) {
				rec2(calls, k, v)
				if k == "p" {
					return "", "dropped", nil
				}
				return k, "raw " + js(normJSON(v)), nil
			}
		}, onEnc: normProps, onDec: mapPM(func(k string, v any) (string, any) {
			if k == "p" {
				return "", nil
			}
			return k, "raw " + js(v)
		})},
		{name: "replacing when encoding", enc: func(calls *[]string) func(string, any) (string, json.RawMessage, error) {
			return func(k string, v any) (string, json.RawMessage, error) {
				rec2(calls, k, v)
				return k, json.RawMessage(fmt.Sprintf(` { "was" : %s } `, js(k))), nil
			}
		}, onEnc: mapPM(func(k string, v any) (string, any) { return k, map[string]any{"was": k} }), onDec: idPM},
	}
}

func (c *codec) json(separate bool, enc, dec *[]string, in lpg.Interner) lpg.JSON {
	j := lpg.JSON{MarshalEdgesSeparately: separate, Interner: in}
	if c.enc != nil {
		j.PropertyMarshaler = c.enc(enc)
	}
	if c.dec != nil {
		j.PropertyUnmarshaler = c.dec(dec)
	}
	return j
}

// allProps lists the properties of the graph as the codecs see them.
func (m *Model) allProps(val func(PM) PM) []string {
	var out []string
	add := func(p PM) {
		for k, v := range val(p) {
			out = append(out, fmt.Sprintf("%q=%s", k, js(v)))
		}
	}
	for i := range m.N {
		if !m.N[i].Gone {
			add(m.N[i].Props)
		}
	}
	for i := range m.E {
		if !m.E[i].Gone {
			add(m.E[i].Props)
		}
	}
	sort.Strings(out)
	return out
}

// target is a kind of graph to decode into.
type target struct {
	name string
	make func() (*lpg.Graph, *SG)
}

func targets() []target {
	prior := func(ix int) func() (*lpg.Graph, *SG) {
		return func() (*lpg.Graph, *SG) {
			w := newWorld()
			if ix >= 0 {
				w.G.AddNodePropertyIndex("s", lpg.IndexType(ix))
				w.G.AddEdgePropertyIndex("s", lpg.IndexType(ix))
			}
			w.NewNode([]string{"A"}, PM{"p": "old"})
			w.NewNode(nil, nil)
			w.NewEdge(0, 1, "x", PM{"p": "old"})
			return w.G, w.M.sg(typedStr)
		}
	}
	return []target{{"an empty graph", func() (*lpg.Graph, *SG) { return lpg.NewGraph(), &SG{} }}, {"a graph with contents", prior(-1)}, {"a graph with contents and indexes", prior(int(lpg.HashIndex))}}
}

// roundTrip encodes and decodes the world's graph with the codec.
func (w *World) roundTrip(cd *codec, separate bool, tg target, in lpg.Interner) {
	var encCalls, decCalls []string
	j := cd.json(separate, &encCalls, &decCalls, in)
	buf := &bytes.Buffer{}
	if err := j.Encode(w.G, buf); err != nil {
		fail("Encode returns the error %v", err)
	}
	w.checks++
	how := fmt.Sprintf("codec %s, separate edges %v, decoded into %s", cd.name, separate, tg.name)
	doc := buf.Bytes()
	encRef := w.M.sg(func(p PM) string { return typedStr(cd.onEnc(p)) })
	if got := checkLayout(doc, separate, typedStr); !got.iso(encRef) {
		fail("%s: the document describes another graph\n%s\nexpected\n%sdocument %s", how, got, encRef, doc)
	}
	if cd.enc != nil {
		want := w.M.allProps(idPM)
		sort.Strings(encCalls)
		if !sameStrs(encCalls, want) {
			fail("%s: the property marshaler was called with\n%s\nexpected\n%s", how, strings.Join(encCalls, "\n"), strings.Join(want, "\n"))
		}
	}
	g, prior := tg.make()
	if err := j.Decode(g, json.NewDecoder(bytes.NewReader(doc))); err != nil {
		fail("%s: Decode returns the error %v for %s", how, err, doc)
	}
	want := prior.plus(w.M.sg(func(p PM) string { return typedStr(cd.onDec(cd.onEnc(p))) }))
	if got := summary(g, typedStr); !got.iso(want) {
		fail("%s: decoding the document gives\n%sexpected\n%sdocument %s", how, got, want, doc)
	}
	if cd.dec != nil {
		want := w.M.allProps(cd.onEnc)
		var norm []string
		for _, s := range decCalls {
			key, _ := strconv.QuotedPrefix(s)
			i := len(key) + 1
			var x any
			json.Unmarshal([]byte(s[i:]), &x)
			norm = append(norm, s[:i]+js(x))
		}
		sort.Strings(norm)
		if !sameStrs(norm, want) {
			fail("%s: the property unmarshaler was called with\n%s\nexpected\n%s", how, strings.Join(norm, "\n"), strings.Join(want, "\n"))
		}
	}
}

// jsonContents are graphs around one special value, key or label.
func jsonContents() []ZG {
	var out []ZG
	add := func(name string, f func(w *World)) {
		out = append(out, ZG{name, func() *World { w := newWorld(); f(w); return w }})
	}
	for i, v := range jsonValues {
		v := v
		add(fmt.Sprintf("value %d %s", i, clip(js(v), 30)), func(w *World) {
			w.NewNode([]string{"A"}, PM{"p": v, "q": "other"})
			w.NewNode(nil, PM{"z": v})
			w.NewEdge(0, 1, "x", PM{"p": v, "q": "other"})
			w.NewEdge(1, 1, "", PM{"z": v})
		})
	}
	for _, s := range jsonStrings {
		s := s
		add(fmt.Sprintf("key and label %q", s), func(w *World) {
			w.NewNode([]string{s}, PM{s: 1})
			w.NewNode([]string{s, "B"}, PM{"z": 1})
			w.NewEdge(0, 1, s, PM{s: 1, s + "2": 2})
			w.NewEdge(1, 0, s, nil)
		})
	}
	add("many", func(w *World) {
		p := PM{}
		for i := 0; i < 12; i++ {
			p[fmt.Sprint("k", i)] = i
		}
		w.NewNode([]string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J"}, p)
		w.NewNode(nil, p)
		w.NewEdge(0, 1, "x", p)
	})
	return out
}

// emptyKey: a codec that cannot keep a property with an empty name
func (m *Model) emptyKey() bool {
	for i := range m.N {
		if _, ok := m.N[i].Props[""]; ok {
			return true
		}
	}
	for i := range m.E {
		if _, ok := m.E[i].Props[""]; ok {
			return true
		}
	}
	return false
}

func specGraph(g *GSpec) ZG {
	return ZG{g.String(), func() *World { w := newWorld(); g.fill(w, nil, nil); return w }}
}

func init() {
	register(&Prop{
		ID: "C16",
		Bounds: "all graphs up to isomorphism with up to 3 nodes and 3 edges over 2 node and 2 edge kinds, 2 nodes and 2 edges with properties (thorough: 3 edges), the graph zoo, 6 larger shapes, and one graph for each of 24 special property values and 8 special strings as key and label; with embedded and separate edges, 6 pairs of property functions, 3 target graphs, " +
			"shared and own interner; map iteration starting at each of 8 positions, and every single deviation of one map iteration (thorough: pairs) on the zoo; 8 parametrised families of graphs in every size up to 12 and those around powers of two up to 40, fewer questions on sizes 65 to 300, 77 special strings (control characters, quotes, separators, names of members) in 7 places, elements with up to 100 labels and properties, strings up to 64 kB, values nested up to 100 deep; integers around every power of two and special floats read back exactly; a graph of every ordered pair of 108 names that are easily taken for one another (case, white space, composition, separators, numbers, common beginnings); a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Assume: []string{"Property functions do not give two properties of an element the same name; strings are valid UTF-8.", "The decoding side of a document is compared up to graph isomorphism, which is decided by brute force."},
		Tasks: func(th bool) []Task {
			var ts []Task
			cs := codecs()
			tgs := targets()
			task := func(name string, zs []ZG, full bool, shards int) {
				for s := 0; s < shards; s++ {
					s := s
					ts = append(ts, Task{Name: fmt.Sprintf("%s/%d", name, s), Run: func(c *Ctx) {
						for zi, z := range zs {
							if zi%shards != s {
								continue
							}
							for ci := range cs {
								cd := &cs[ci]
								for _, separate := range []bool{false, true} {
									separate := separate
									c.Case(func() string {
										return fmt.Sprintf("graph %s, codec %s, separate edges %v", z.Name, cd.name, separate)
									}, func() {
										w := z.Build()
										for off := 0; off < 8; off++ {
											if !full && off != ci && off != 4 {
												continue
											}
											mapDefault(off)
											for ti, tg := range tgs {
												if !full && ti > 0 && off%2 == 1 {
													continue
												}
												w.roundTrip(cd, separate, tg, nil)
												c.st.Traces++
												c.st.Transitions += 2
											}
										}
										mapDefault(0)
										in := lpg.MapInterner{}
										w.roundTrip(cd, separate, tgs[0], in)
										w.roundTrip(cd, separate, tgs[1], in)
										c.st.Traces += 2
										c.st.States++
										c.st.Checks += w.checks
									})
								}
							}
						}
					}})
				}
			}
			var small, props, shapes []ZG
			for _, g := range concat(graphFamily{n: 0}.list(), graphFamily{n: 1, maxE: 3, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 2, maxE: 3, nks: nkPlain, eks: ekPlain}.list(), graphFamily{n: 3, maxE: 3, nks: nkPlain, eks: ekPlain}.list()) {
				small = append(small, specGraph(g))
			}
			for _, g := range concat(graphFamily{n: 1, maxE: 2, nks: nkProps, eks: ekProps}.list(), graphFamily{n: 2, maxE: dt(th, 2, 3), nks: nkProps, eks: ekProps}.list()) {
				props = append(props, specGraph(g))
			}
			for _, g := range bigShapes() {
				shapes = append(shapes, specGraph(g))
			}
			task("small", small, th, 8)
			task("properties", props, th, 8)
			task("shapes", append(zoo(indexKinds), shapes...), true, 8)
			task("contents", jsonContents(), true, 8)
			// one map iteration starts elsewhere
			for _, z := range append(zoo(indexKinds[:1]), jsonContents()[24:]...) {
				z := z
				ts = append(ts, Task{Name: "map-order/" + z.Name, Run: func(c *Ctx) {
					for _, separate := range []bool{false, true} {
						separate := separate
						for ci := range cs[:2] {
							cd := &cs[ci]
							mapArm(nil)
							w := z.Build()
							w.roundTrip(cd, separate, tgs[0], nil)
							n := mapDisarm()
							run := func(sched []uint8) {
								c.Case(func() string {
									return fmt.Sprintf("graph %s, codec %s, separate edges %v, map iterations start at %v", z.Name, cd.name, separate, sched)
								}, func() {
									defer mapDisarm()
									mapArm(sched)
									w := z.Build()
									w.roundTrip(cd, separate, tgs[0], nil)
									c.st.States++
									c.st.Traces++
									c.st.Transitions += 2
									c.st.Checks += w.checks
								})
							}
							n = min(n, 250)
							for i := 0; i < n; i++ {
								for off := 1; off < 8; off++ {
									s := make([]uint8, i+1)
									s[i] = uint8(off)
									run(s)
									if th && n < 120 {
										for k := i + 1; k < n; k++ {
											for _, off2 := range []uint8{1, 4} {
												s2 := make([]uint8, k+1)
												copy(s2, s)
												s2[k] = off2
												run(s2)
											}
										}
									}
								}
							}
						}
					}
				}})
			}
			return append(append(append(ts, wideJSONTasks(th)...), hugeJSONTasks(th)...), append(exactNumberTasks(th), append(similarTrips(), append(vastTask("vast-embedded", vastTrip(false)), vastTask("vast-separate", vastTrip(true))...)...)...)...)
		},
	})
}
