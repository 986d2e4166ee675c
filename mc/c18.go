package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"

	"github.com/cloudprivacylabs/lpg/v2"
)

var errOther = errors.New("another injected failure")

// output is one way of writing a graph out.
type output struct {
	name string
	run  func(w *World, out io.Writer) error
	ok   func(w *World, doc []byte) // the document is complete
}

func outputs() []output {
	var outs []output
	for ci, cd := range codecs() {
		if ci != 0 && ci != 2 && ci != 3 {
			continue
		}
		for _, sep := range []bool{false, true} {
			cd, sep := cd, sep
			outs = append(outs, output{fmt.Sprintf("Encode, codec %s, separate edges %v", cd.name, sep), func(w *World, out io.Writer) error {
				return cd.json(sep, nil, nil, nil).Encode(w.G, out)
			}, func(w *World, doc []byte) {
				want := w.M.sg(func(p PM) string { return typedStr(cd.onEnc(p)) })
				if got := checkLayout(doc, sep, typedStr); !got.iso(want) {
					fail("success is reported, but the document is not complete: it describes\n%sexpected\n%s%s", got, want, doc)
				}
			}})
		}
	}
	none := func(map[string]string) string { return "" }
	dot := func(w *World, src string) {
		want := w.M.dotRef(0, 0, func(int) string { return "" })
		if got := dotSG(src, none); !got.iso(want) {
			fail("success is reported, but the document is not complete: it shows\n%sexpected\n%s%s", got, want, src)
		}
	}
	// default renderers given explicitly, writing in one piece
	own := lpg.DOTRenderer{
		NodeRenderer: func(id string, n *lpg.Node, out io.Writer) (bool, error) {
			_, err := io.WriteString(out, id+"\n")
			return err == nil, err
		},
		EdgeRenderer: func(f, t string, e *lpg.Edge, out io.Writer) (bool, error) {
			err := lpg.DefaultDOTEdgeRender(f, t, e, out)
			return true, err
		},
	}
	for _, r := range []struct {
		name string
		r    lpg.DOTRenderer
	}{{"default", lpg.DOTRenderer{}}, {"own", own}} {
		r := r
		outs = append(outs, output{"Render, renderers " + r.name, func(w *World, out io.Writer) error { return r.r.Render(w.G, "G", out) }, func(w *World, doc []byte) { dot(w, string(doc)) }},
			output{"RenderNodesEdges, renderers " + r.name, func(w *World, out io.Writer) error { return r.r.RenderNodesEdges(w.G, out) }, func(w *World, doc []byte) { dot(w, "digraph G {"+string(doc)+"}") }})
	}
	return outs
}

// failWrites runs the output with every failure of the writer.
func (w *World) failWrites(c *Ctx, o *output) {
	ref := &faultWriter{bytes: -1}
	if err := o.run(w, ref); err != nil {
		fail("%s returns the error %v although nothing fails", o.name, err)
	}
	o.ok(w, ref.buf.Bytes())
	try := func(f *faultWriter, how string) {
		err := o.run(w, f)
		c.st.Traces++
		c.st.Transitions++
		w.checks++
		if f.failed {
			if err == nil {
				fail("%s reports success although %s", o.name, how)
			}
			if !errors.Is(err, errInjected) {
				fail("%s: %s, but another error is returned: %v", o.name, how, err)
			}
		} else {
			if err != nil {
				fail("%s returns the error %v although nothing failed", o.name, err)
			}
			o.ok(w, f.buf.Bytes())
		}
	}
	for i := 1; i <= ref.calls+1; i++ {
		for _, sticky := range []bool{false, true} {
			try(&faultWriter{failAt: i, sticky: sticky, bytes: -1}, fmt.Sprintf("write %d failed (of %d, later ones too: %v)", i, ref.calls, sticky))
		}
	}
	for i := 0; i <= ref.buf.Len(); i++ {
		try(&faultWriter{bytes: i}, fmt.Sprintf("writing failed after %d bytes of %d", i, ref.buf.Len()))
	}
}

type badMarshaler struct{}

func (badMarshaler) MarshalJSON() ([]byte, error) { return nil, errInjected }

type badText struct{}

func (badText) MarshalText() ([]byte, error) { return nil, errInjected }

type invalidMarshaler struct{ s string }

func (b invalidMarshaler) MarshalJSON() ([]byte, error) { return []byte(b.s), nil }

// values that cannot be represented in JSON
var badValues = []struct {
	name string
	v    any
	inj  bool // encoding fails with errInjected
}{
	{"channel", make(chan int), false}, {"function", func() {}, false}, {"NaN", math.NaN(), false}, {"infinity", math.Inf(-1), false}, {"complex", 1i, false}, {"float32 infinity", float32(math.Inf(1)), false},
	{"failing MarshalJSON", badMarshaler{}, true}, {"failing MarshalText", badText{}, true}, {"pointer to failing MarshalJSON", &badMarshaler{}, true}, {"MarshalJSON with invalid result", invalidMarshaler{"{"}, false}, {"MarshalJSON with empty result", invalidMarshaler{""}, false},
	{"list with a channel", []any{1, make(chan int)}, false}, {"map with NaN", map[string]any{"a": 1, "b": math.NaN()}, false}, {"list with failing MarshalJSON", []any{"x", []any{badMarshaler{}}}, true},
	{"invalid number", json.Number("1x"), false}, {"map with unsupported keys", map[bool]int{true: 1}, false}, {"struct with a channel", struct{ C chan int }{make(chan int)}, false}, {"invalid RawMessage", json.RawMessage(`{"a"`), false},
}

// raw results of a property marshaler that are not JSON
var badRaw = []string{"{", "", "1 2", "nul", "\"a", "[1,]", "{\"a\":1}}", "\"\x01\""}

// fnErr is a way for a property marshaler to return an error.
var fnErrs = []struct {
	name string
	f    func(k string) (string, json.RawMessage)
}{
	{"with the key and a value", func(k string) (string, json.RawMessage) { return k, json.RawMessage("1") }},
	{"with the key only", func(k string) (string, json.RawMessage) { return k, nil }},
	{"with an empty key", func(string) (string, json.RawMessage) { return "", nil }},
}

func init() {
	register(&Prop{
		ID: "C18",
		Bounds: "the graph zoo, all graphs up to isomorphism with up to 2 nodes and 2 edges with properties, 3 nodes and 2 edges with fewer kinds, larger shapes and special contents; written by 10 ways of encoding and rendering with a failure (transient or lasting) at every call of the writer and at every byte position; " +
			"failures at every call of the property marshaler (3 ways), of the node and of the edge renderer (2 ways), alone and with every single write failure; 18 unrepresentable values and 8 invalid marshaler results at every property of every node and edge; map iteration starting at 2 of 8 positions (thorough: all 8; 3 nodes and 3 edges); 8 parametrised families of graphs in sizes up to 40 with every call of the writer failing, of 65 to 300 elements with 9 of the calls failing",
		Assume: []string{"The writer follows the io.Writer contract: a short write comes with an error."},
		Tasks: func(th bool) []Task {
			var ts []Task
			var zs []ZG
			for _, g := range concat(graphFamily{n: 1, maxE: 2, nks: nkProps, eks: ekProps}.list(), graphFamily{n: 2, maxE: 2, nks: nkProps[1:4], eks: ekProps}.list()) {
				zs = append(zs, specGraph(g))
			}
			for _, g := range (graphFamily{n: 3, maxE: dt(th, 2, 3), nks: nkProps[2:4], eks: ekProps[1:]}.list()) {
				zs = append(zs, specGraph(g))
			}
			zs = append(zs, zoo(indexKinds[:1])...)
			for _, g := range bigShapes() {
				zs = append(zs, specGraph(g))
			}
			zs = append(zs, jsonContents()...)
			outs := outputs()
			shards := 16
			for s := 0; s < shards; s++ {
				s := s
				ts = append(ts, Task{Name: fmt.Sprintf("writer/%d", s), Run: func(c *Ctx) {
					for zi, z := range zs {
						if zi%shards != s {
							continue
						}
						for oi := range outs {
							o := &outs[oi]
							if w := z.Build(); w.M.emptyKey() && oi > 1 && oi < 6 {
								continue
							}
							for off := 0; off < 8; off++ {
								off := off
								if !th && (off+oi+zi)%4 != 0 {
									continue
								}
								c.Case(func() string {
									return fmt.Sprintf("graph %s, %s, map iteration starting at %d", z.Name, o.name, off)
								}, func() {
									w := z.Build()
									mapDefault(off)
									w.failWrites(c, o)
									mapDefault(0)
									c.st.Checks += w.checks
								})
								c.st.States++
							}
						}
					}
				}}, Task{Name: fmt.Sprintf("callbacks/%d", s), Run: func(c *Ctx) {
					for zi, z := range zs {
						if zi%shards != s {
							continue
						}
						for off := 0; off < 8; off++ {
							off := off
							if !th && (off+zi)%4 != 0 {
								continue
							}
							c.Case(func() string {
								return fmt.Sprintf("graph %s, failing functions, map iteration starting at %d", z.Name, off)
							}, func() {
								w := z.Build()
								mapDefault(off)
								w.failCallbacks(c)
								mapDefault(0)
								c.st.Checks += w.checks
							})
							c.st.States++
						}
					}
				}}, Task{Name: fmt.Sprintf("values/%d", s), Run: func(c *Ctx) {
					for zi, z := range zs {
						if zi%shards != s || zi >= len(zs)-len(jsonContents()) {
							continue
						}
						w := z.Build()
						for at := 0; at < len(w.N)+len(w.E); at++ {
							at := at
							if at < len(w.N) && w.M.N[at].Gone || at >= len(w.N) && w.M.E[at-len(w.N)].Gone {
								continue
							}
							c.Case(func() string {
								if at < len(w.N) {
									return fmt.Sprintf("graph %s, unrepresentable values on node %d", z.Name, at)
								}
								return fmt.Sprintf("graph %s, unrepresentable values on edge %d", z.Name, at-len(w.N))
							}, func() { z.Build().failValues(c, at) })
							c.st.States++
						}
					}
				}})
			}
			return append(append(ts, wideFailTasks(th)...), hugeFailTasks(th)...)
		},
	})
}

// failCallbacks lets every call of every callback fail.
func (w *World) failCallbacks(c *Ctx) {
	count := func(what string, f func(failAt int, out io.Writer) (calls int, err error)) {
		total, err := f(0, io.Discard)
		if err != nil {
			fail("%s: the error %v is returned although nothing fails", what, err)
		}
		for i := 1; i <= total; i++ {
			_, err := f(i, io.Discard)
			c.st.Traces++
			c.st.Transitions++
			w.checks++
			if err == nil {
				fail("%s: success is reported although call %d of %d of the function failed", what, i, total)
			}
			if !errors.Is(err, errInjected) {
				fail("%s: call %d of %d of the function failed, but another error is returned: %v", what, i, total, err)
			}
			// and a write fails, too
			for k := 1; ; k++ {
				fw := &faultWriter{failAt: k, bytes: -1}
				_, err := f(i, errWriter{fw})
				c.st.Traces++
				if err == nil || !errors.Is(err, errInjected) && !errors.Is(err, errOther) {
					fail("%s: call %d of the function and write %d fail, but the result is %v", what, i, k, err)
				}
				if !fw.failed {
					break
				}
			}
		}
	}
	for _, sep := range []bool{false, true} {
		for _, fe := range fnErrs {
			count(fmt.Sprintf("Encode, separate edges %v, the marshaler fails %s", sep, fe.name), func(failAt int, out io.Writer) (int, error) {
				calls := 0
				err := lpg.JSON{MarshalEdgesSeparately: sep, PropertyMarshaler: func(k string, v any) (string, json.RawMessage, error) {
					calls++
					if calls == failAt {
						k, r := fe.f(k)
						return k, r, errInjected
					}
					b, err := json.Marshal(v)
					return k, b, err
				}}.Encode(w.G, out)
				return calls, err
			})
		}
	}
	for _, res := range []bool{false, true} {
		for _, whole := range []bool{false, true} {
			for _, node := range []bool{false, true} {
				count(fmt.Sprintf("rendering, whole %v, node renderer %v returns %v and fails", whole, node, res), func(failAt int, out io.Writer) (int, error) {
					calls := 0
					r := lpg.DOTRenderer{}
					if node {
						r.NodeRenderer = func(id string, n *lpg.Node, out io.Writer) (bool, error) {
							calls++
							if calls == failAt {
								return res, errInjected
							}
							return true, lpg.DefaultDOTNodeRender(id, n, out)
						}
					} else {
						r.EdgeRenderer = func(f, t string, e *lpg.Edge, out io.Writer) (bool, error) {
							calls++
							if calls == failAt {
								return res, errInjected
							}
							return true, lpg.DefaultDOTEdgeRender(f, t, e, out)
						}
					}
					if whole {
						return calls, r.Render(w.G, "G", out)
					}
					return calls, r.RenderNodesEdges(w.G, out)
				})
			}
		}
	}
	// the single steps
	for _, r := range []lpg.DOTRenderer{{}, {
		NodeRenderer: func(string, *lpg.Node, io.Writer) (bool, error) { return true, errInjected },
		EdgeRenderer: func(string, string, *lpg.Edge, io.Writer) (bool, error) { return true, errInjected },
	}} {
		for i := range w.N {
			if _, err := r.RenderNode("n", w.N[i], &faultWriter{failAt: 1, sticky: true, bytes: -1}); !errors.Is(err, errInjected) {
				fail("RenderNode returns the error %v although it failed", err)
			}
		}
		for i := range w.E {
			if _, err := r.RenderEdge("n", "m", w.E[i], &faultWriter{failAt: 1, sticky: true, bytes: -1}); !errors.Is(err, errInjected) {
				fail("RenderEdge returns the error %v although it failed", err)
			}
		}
	}
}

// errWriter turns the injected failure into the other one.
type errWriter struct{ f *faultWriter }

func (e errWriter) Write(p []byte) (int, error) {
	n, err := e.f.Write(p)
	if err != nil {
		err = errOther
	}
	return n, err
}

// failValues puts every unrepresentable value at every property of the element.
func (w *World) failValues(c *Ctx, at int) {
	set := func(k string, v any) {
		if at < len(w.N) {
			w.N[at].SetProperty(k, v)
		} else {
			w.E[at-len(w.N)].SetProperty(k, v)
		}
	}
	del := func(k string) {
		if at < len(w.N) {
			w.N[at].RemoveProperty(k)
		} else {
			w.E[at-len(w.N)].RemoveProperty(k)
		}
	}
	props := PM{}
	if at < len(w.N) {
		props = w.M.N[at].Props
	} else {
		props = w.M.E[at-len(w.N)].Props
	}
	keys := []string{"", "zz"}
	for k := range props {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for ki, k := range keys {
		for vi, b := range badValues {
			set(k, b.v)
			mapDefault((ki + vi) % 8)
			for _, sep := range []bool{false, true} {
				for _, own := range []bool{false, true} {
					j := lpg.JSON{MarshalEdgesSeparately: sep}
					if own {
						j.PropertyMarshaler = func(k string, v any) (string, json.RawMessage, error) {
							b, err := json.Marshal(v)
							return k + "!", b, err
						}
					}
					err := j.Encode(w.G, io.Discard)
					c.st.Traces++
					c.st.Transitions++
					if err == nil {
						fail("Encode reports success although property %q cannot be represented (%s), separate edges %v", k, b.name, sep)
					}
					if b.inj && !errors.Is(err, errInjected) {
						fail("marshaling property %q fails (%s), but another error is returned: %v", k, b.name, err)
					}
				}
			}
			mapDefault(0)
		}
		for _, raw := range badRaw {
			set(k, "bad")
			for _, sep := range []bool{false, true} {
				j := lpg.JSON{MarshalEdgesSeparately: sep, PropertyMarshaler: func(k string, v any) (string, json.RawMessage, error) {
					if v == "bad" {
						return k + "!", json.RawMessage(raw), nil
					}
					b, err := json.Marshal(v)
					return k + "!", b, err
				}}
				err := j.Encode(w.G, io.Discard)
				c.st.Traces++
				c.st.Transitions++
				if err == nil {
					fail("Encode reports success although the marshaler returns %q for property %q, separate edges %v", raw, k, sep)
				}
			}
		}
		if v, had := props[k]; had {
			set(k, v)
		} else {
			del(k)
		}
	}
}
