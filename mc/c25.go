package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

func dotEdgeStr(l string) string {
	if l == "" {
		return "no label"
	}
	return fmt.Sprintf("label %q", l)
}

// dotRef is the graph a rendering should show; exN and exE are bit sets of the
// excluded nodes and edges.
func (m *Model) dotRef(exN, exE int, val func(i int) string) *SG {
	s := &SG{}
	ix := map[int]int{}
	for i := range m.N {
		if !m.N[i].Gone && exN&(1<<i) == 0 {
			ix[i] = len(s.N)
			s.N = append(s.N, val(i))
		}
	}
	for i := range m.E {
		e := &m.E[i]
		if e.Gone || exE&(1<<i) != 0 {
			continue
		}
		f, ok1 := ix[e.From]
		t, ok2 := ix[e.To]
		if ok1 && ok2 {
			s.E = append(s.E, SE{f, t, dotEdgeStr(e.Label)})
		}
	}
	return s
}

// renderer renders with the graph's elements made recognisable, leaves out the
// excluded ones, and checks how it is called.
func (w *World) renderer(exN, exE int) lpg.DOTRenderer {
	ids := map[int]string{}
	seenE := map[int]bool{}
	seenN := map[int]bool{}
	return lpg.DOTRenderer{
		NodeRenderer: func(id string, n *lpg.Node, out io.Writer) (bool, error) {
			i := w.nodeIdx(n)
			if seenN[i] {
				fail("the node renderer is called twice for node %d", i)
			}
			seenN[i] = true
			if exN&(1<<i) != 0 {
				return false, nil
			}
			ids[i] = id
			_, err := fmt.Fprintf(out, "%s [label=\"node %d\"]\n", id, i)
			return true, err
		},
		EdgeRenderer: func(from, to string, e *lpg.Edge, out io.Writer) (bool, error) {
			i := w.edgeIdx(e)
			me := w.M.E[i]
			if seenE[i] {
				fail("the edge renderer is called twice for edge %d", i)
			}
			seenE[i] = true
			if (exN>>me.From|exN>>me.To)&1 != 0 {
				fail("the edge renderer is called for edge %d, which touches an excluded node", i)
			}
			if ids[me.From] != from || ids[me.To] != to {
				fail("the edge renderer is called for edge %d with %s -> %s, but its nodes are called %s and %s", i, from, to, ids[me.From], ids[me.To])
			}
			if exE&(1<<i) != 0 {
				return false, nil
			}
			return true, lpg.DefaultDOTEdgeRender(from, to, e, out)
		},
	}
}

func (w *World) checkDOT(name string) {
	none := func(map[string]string) string { return "" }
	buf := &bytes.Buffer{}
	if err := (lpg.DOTRenderer{}).Render(w.G, name, buf); err != nil {
		fail("Render returns the error %v", err)
	}
	w.checks++
	want := w.M.dotRef(0, 0, func(int) string { return "" })
	if got := dotSG(buf.String(), none); !got.iso(want) {
		fail("Render shows\n%sexpected\n%s%s", got, want, buf)
	}
	buf.Reset()
	if err := (lpg.DOTRenderer{}).RenderNodesEdges(w.G, buf); err != nil {
		fail("RenderNodesEdges returns the error %v", err)
	}
	if got := dotSG("digraph{"+buf.String()+"}", none); !got.iso(want) {
		fail("RenderNodesEdges shows\n%sexpected\n%s%s", got, want, buf)
	}
	w.checks++
}

// checkDOTElements renders the elements one by one: without renderers they are
// shown, and a given renderer is asked and decides.
func (w *World) checkDOTElements() {
	all := func(map[string]string) string { return "" }
	var asked any
	var show bool
	var bad error
	custom := lpg.DOTRenderer{
		NodeRenderer: func(id string, n *lpg.Node, out io.Writer) (bool, error) {
			asked = n
			fmt.Fprintf(out, "node %s", id)
			return show, bad
		},
		EdgeRenderer: func(from, to string, e *lpg.Edge, out io.Writer) (bool, error) {
			asked = e
			fmt.Fprintf(out, "edge %s to %s", from, to)
			return show, bad
		},
	}
	one := func(what string, x any, before string, render func(r lpg.DOTRenderer, out io.Writer) (bool, error), want *SG, text string) {
		buf := &bytes.Buffer{}
		ok, err := render(lpg.DOTRenderer{}, buf)
		if !ok || err != nil {
			fail("rendering %s without a renderer returns %v, %v", what, ok, err)
		}
		if got := dotSG("digraph{"+before+buf.String()+"}", all); !got.iso(want) {
			fail("rendering %s without a renderer shows\n%sexpected\n%s%s", what, got, want, buf)
		}
		for i := 0; i < 4; i++ {
			buf.Reset()
			asked, show, bad = nil, i&1 != 0, nil
			if i&2 != 0 {
				bad = errStub
			}
			ok, err := render(custom, buf)
			if asked != x || ok != show || err != bad || buf.String() != text {
				fail("rendering %s with a renderer that returns %v, %v for it: returns %v, %v and writes %q (it writes %q)", what, show, bad, ok, err, buf, text)
			}
		}
		w.checks++
	}
	for i := range w.M.N {
		if w.M.N[i].Gone {
			continue
		}
		n := w.N[i]
		one(fmt.Sprint("node ", i), n, "", func(r lpg.DOTRenderer, out io.Writer) (bool, error) { return r.RenderNode("n7", n, out) }, &SG{N: []string{""}}, "node n7")
	}
	for i := range w.M.E {
		if w.M.E[i].Gone {
			continue
		}
		e := w.E[i]
		one(fmt.Sprint("edge ", i), e, "n7; n8;", func(r lpg.DOTRenderer, out io.Writer) (bool, error) {
			return r.RenderEdge("n7", "n8", e, out)
		}, &SG{N: []string{"", ""}, E: []SE{{0, 1, dotEdgeStr(w.M.E[i].Label)}}}, "edge n7 to n8")
	}
}

var errStub = errors.New("refused")

func (w *World) checkDOTExcluding(exN, exE int, whole bool) {
	buf := &bytes.Buffer{}
	r := w.renderer(exN, exE)
	src := ""
	if whole {
		if err := r.Render(w.G, "G", buf); err != nil {
			fail("Render returns the error %v", err)
		}
		src = buf.String()
	} else {
		if err := r.RenderNodesEdges(w.G, buf); err != nil {
			fail("RenderNodesEdges returns the error %v", err)
		}
		src = "digraph G {\n" + buf.String() + "}"
	}
	w.checks++
	want := w.M.dotRef(exN, exE, func(i int) string { return fmt.Sprintf("node %d", i) })
	if got := dotSG(src, func(a map[string]string) string { return a["label"] }); !got.iso(want) {
		fail("without the nodes %b and edges %b the rendering shows\n%sexpected\n%s%s", exN, exE, got, want, src)
	}
}

var dotNames = []string{"G", "", "g_1", `"a \"quoted\" {name}"`, "12"}

// dotLabelStrings are edge labels made of all short strings over an alphabet of special characters.
func dotLabelStrings(th bool) []string {
	alpha := []string{"a", "\"", "\\", "n", "\n", "]", ";", ">", "é"}
	out := []string{}
	cur := []string{""}
	for l := 0; l < dt(th, 4, 5); l++ {
		var nxt []string
		for _, s := range cur {
			for _, a := range alpha {
				nxt = append(nxt, s+a)
			}
		}
		out = append(out, nxt...)
		cur = nxt
	}
	return append(append(out, withoutNUL(nastyStrings)...), "x -> y", "}", "\\\"]; n0 -> n0 [label=\"", "<b>", "/* c */", "// c", "#", "\t", "%s", "%d%%", "\\l\\r\\N", "edge", " ", "ünï")
}

func init() {
	register(&Prop{
		ID: "C25",
		Bounds: "all graphs up to isomorphism with up to 3 nodes and 4 edges over 2 edge labels and none, 4 nodes and 3 edges, 5 nodes and 2 edges (thorough: one edge more), the graph zoo and larger shapes, each with every subset of excluded nodes and every subset of excluded edges, whole documents and bodies, and each element by itself; " +
			"all edge labels of up to 4 (thorough: 5) characters over 9 special ones and 14 longer ones, on a loop and between nodes; labels of up to 200000 bytes; 5 graph names; 8 parametrised families of graphs in every size up to 16 and those around powers of two up to 34 (fewer questions: up to 300) with 6 choices of excluded nodes and of excluded edges; map iteration starting at each of 8 positions; a graph of 65606 nodes of which one has an edge to each, with a cycle through all",
		Assume: []string{"Renderers that exclude an element write nothing for it; the graph name is a valid DOT name; labels have no zero bytes, which no DOT document can have.", "The document is read back by a parser for DOT statements in the harness."},
		Tasks: func(th bool) []Task {
			var ts []Task
			eks := []EK{{L: "x"}, {L: "y"}, {}}
			nks := nkPlain[:1]
			gs := concat(graphFamily{n: 0}.list(), graphFamily{n: 1, maxE: 4, nks: nks, eks: eks}.list(), graphFamily{n: 2, maxE: dt(th, 4, 5), nks: nks, eks: eks}.list(), graphFamily{n: 3, maxE: dt(th, 4, 5), nks: nks, eks: eks}.list(),
				graphFamily{n: 4, maxE: dt(th, 3, 4), nks: nks, eks: eks}.list(), graphFamily{n: 5, maxE: dt(th, 2, 3), nks: nks, eks: eks}.list())
			var zs []ZG
			for _, g := range gs {
				zs = append(zs, specGraph(g))
			}
			zs = append(zs, zoo(indexKinds[:1])...)
			for _, g := range bigShapes() {
				zs = append(zs, specGraph(g))
			}
			shards := 12
			for s := 0; s < shards; s++ {
				s := s
				ts = append(ts, Task{Name: fmt.Sprintf("exclusions/%d", s), Run: func(c *Ctx) {
					for zi, z := range zs {
						if zi%shards != s {
							continue
						}
						w := z.Build()
						c.Case(func() string { return fmt.Sprintf("graph %s, default renderers", z.Name) }, func() {
							w := z.Build()
							for off := 0; off < 8; off++ {
								mapDefault(off)
								w.checkDOT(dotNames[off%len(dotNames)])
							}
							mapDefault(0)
							w.checkDOTElements()
							c.st.Checks += w.checks
						})
						c.st.States++
						c.st.Transitions++
						c.st.Traces++
						nn, ne := min(len(w.N), 5), min(len(w.E), 5)
						for exN := 0; exN < 1<<nn; exN++ {
							exN := exN
							c.Case(func() string { return fmt.Sprintf("graph %s, nodes %b excluded", z.Name, exN) }, func() {
								w := z.Build()
								for exE := 0; exE < 1<<ne; exE++ {
									mapDefault((exN + exE) % 8)
									w.checkDOTExcluding(exN, exE, exE%2 == 0)
									c.st.Transitions++
									c.st.Traces++
								}
								mapDefault(0)
								c.st.Checks += w.checks
							})
							c.st.States++
						}
					}
				}})
			}
			ts = append(ts, Task{Name: "labels", Run: func(c *Ctx) {
				for _, l := range dotLabelStrings(th) {
					l := l
					c.Case(func() string { return fmt.Sprintf("edge label %q", l) }, func() {
						w := newWorld()
						w.NewNode([]string{l}, PM{l: l})
						w.NewNode(nil, nil)
						w.NewEdge(0, 1, l, PM{"p": l})
						w.NewEdge(1, 1, l, nil)
						w.NewEdge(1, 0, "x", nil)
						w.checkDOT("G")
						w.checkDOTElements()
						w.checkDOTExcluding(0, 0, true)
						c.st.Checks += w.checks
					})
					c.st.States++
					c.st.Transitions += 3
					c.st.Traces += 3
				}
			}})
			return append(append(ts, wideDOTTasks(th)...), append(hugeDOTTasks(th), append(longLabelTasks(th), vastTask("vast", vastDOT)...)...)...)
		},
	})
}

// withoutNUL: no DOT document can have a zero byte.
func withoutNUL(l []string) (out []string) {
	for _, s := range l {
		if !strings.Contains(s, "\x00") {
			out = append(out, s)
		}
	}
	return out
}
