package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// read is an operation that only reads the graph. cb is called at every point
// where the library gives control to the caller. The result is canonical:
// independent of any unspecified order.
type read struct {
	name string
	run  func(w *World, cb func()) string
}

func sortedJoin(l []string) string {
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func (w *World) pathStr(p *lpg.Path) string {
	if p == nil {
		return "nil"
	}
	if p.NumNodes() == 0 {
		return "empty"
	}
	sb := strings.Builder{}
	for i := 0; i < p.NumNodes(); i++ {
		if i > 0 {
			fmt.Fprintf(&sb, "-e%d-", w.edgeIdx(p.GetEdge(i-1)))
		}
		fmt.Fprintf(&sb, "n%d", w.nodeIdx(p.GetNode(i)))
	}
	return sb.String()
}

// symStr is the value of a pattern variable; edge sequences as given.
func (w *World) symStr(v any) string {
	switch x := v.(type) {
	case *lpg.Node:
		return fmt.Sprintf("n%d", w.nodeIdx(x))
	case *lpg.Path:
		if x == nil {
			return "nilpath"
		}
		var s []string
		for i := 0; i < x.NumEdges(); i++ {
			s = append(s, fmt.Sprintf("e%d", w.edgeIdx(x.GetEdge(i))))
		}
		sort.Strings(s)
		return strings.Join(s, ",")
	case *lpg.Edge:
		return fmt.Sprintf("e%d", w.edgeIdx(x))
	}
	return fmt.Sprintf("?%T", v)
}

type cbAcc struct {
	w   *World
	cb  func()
	out []string
	tap func(p *lpg.Path, sym map[string]any)
}

func (a *cbAcc) StoreResult(_ *lpg.MatchContext, path *lpg.Path, symbols map[string]interface{}) {
	s := a.w.pathStr(path)
	var ks []string
	for k := range symbols {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += " " + k + "=" + a.w.symStr(symbols[k])
	}
	a.out = append(a.out, s)
	a.cb()
	if a.tap != nil {
		a.tap(path, symbols)
	}
}

type cbWriter struct {
	bytes.Buffer
	cb func()
}

func (c *cbWriter) Write(p []byte) (int, error) {
	c.cb()
	return c.Buffer.Write(p)
}

// canonJSON sorts the keys and string lists of a document.
func canonJSON(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return "invalid: " + err.Error() + ": " + string(b)
	}
	var walk func(v any) any
	walk = func(v any) any {
		switch x := v.(type) {
		case map[string]any:
			for k := range x {
				x[k] = walk(x[k])
			}
		case []any:
			all := len(x) > 0
			for i := range x {
				x[i] = walk(x[i])
				if _, ok := x[i].(string); !ok {
					all = false
				}
			}
			if all {
				sort.Slice(x, func(i, j int) bool { return x[i].(string) < x[j].(string) })
			}
			if len(x) > 0 {
				if _, ok := x[0].(map[string]any); ok {
					s := make([]string, len(x))
					for i := range x {
						s[i] = js(x[i])
					}
					sort.Strings(s)
					o := make([]any, len(x))
					for i := range s {
						o[i] = json.RawMessage(s[i])
					}
					return o
				}
			}
		}
		return v
	}
	return js(walk(v))
}

func patNode(name string, labels ...string) lpg.PatternItem {
	return lpg.PatternItem{Name: name, Labels: set(labels...)}
}

var readPatterns = []struct {
	name string
	p    func() lpg.Pattern
}{
	{"(a)", func() lpg.Pattern { return lpg.Pattern{patNode("a", "A")} }},
	{"()-[e]->(b)", func() lpg.Pattern { return lpg.Pattern{{}, {Name: "e", Min: 1, Max: 1}, {Name: "b"}} }},
	{"()--()<--()", func() lpg.Pattern {
		return lpg.Pattern{{}, {Undirected: true, Min: 1, Max: 1}, {}, {ToLeft: true, Min: 1, Max: 1}, {}}
	}},
	{"(a)-[*1..2]->(b)", func() lpg.Pattern { return lpg.Pattern{{Name: "a"}, {Name: "p", Min: 1, Max: 2}, {Name: "b"}} }},
	{"(a)-[:x*]-(a)", func() lpg.Pattern {
		return lpg.Pattern{{Name: "a"}, {Labels: set("x"), Min: -1, Max: -1, Undirected: true}, {Name: "a"}}
	}},
}

func graphSummary(g *lpg.Graph) string {
	var s []string
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		p := PM{}
		n.ForEachProperty(func(k string, v any) bool { p[k] = v; return true })
		s = append(s, fmt.Sprintf("(%q %s)", n.GetLabels().SortedSlice(), propStr(p)))
	}
	for it := g.GetEdges(); it.Next(); {
		e := it.Edge()
		p := PM{}
		e.ForEachProperty(func(k string, v any) bool { p[k] = v; return true })
		s = append(s, fmt.Sprintf("[%q %s]", e.GetLabel(), propStr(p)))
	}
	return sortedJoin(s)
}

func allReads() []read {
	var rs []read
	add := func(name string, f func(w *World, cb func()) string) { rs = append(rs, read{name, f}) }
	add("GetNodes loop", func(w *World, cb func()) string {
		var o []int
		for it := w.G.GetNodes(); it.Next(); {
			o = append(o, w.nodeIdx(it.Node()))
			cb()
		}
		return fmt.Sprint(sortedInts(o), w.G.NumNodes())
	})
	add("GetEdges loop", func(w *World, cb func()) string {
		var o []int
		for it := w.G.GetEdges(); it.Next(); {
			o = append(o, w.edgeIdx(it.Edge()))
			cb()
		}
		return fmt.Sprint(sortedInts(o), w.G.NumEdges())
	})
	add("iterate every index and view", func(w *World, cb func()) string {
		var o []string
		for _, f := range w.factories() {
			it := f.make()
			var l []int
			for it.Next() {
				l = append(l, w.itemIdx(f.edge, it.Value()))
				cb()
			}
			o = append(o, fmt.Sprint(f.name, sortedInts(l)))
		}
		return strings.Join(o, "\n")
	})
	add("find by lists", func(w *World, cb func()) string {
		q := PM{"r": []any{"b", "a"}}
		qe := PM{"r": []any{1, 2}}
		return fmt.Sprint(w.nodesOf(w.G.FindNodes(set("A"), q)), w.nodesOf(w.G.FindNodes(set(), PM{"r": []string{"a", "b"}})), w.edgesOf(w.G.FindEdges(set(), qe)), q, qe,
			w.nodesOf(w.G.FindNodes(set(), PM{"r": []string{"a"}})), w.nodesOf(w.G.FindNodes(set(), PM{"r": []any{"b"}})), w.nodesOf(w.G.FindNodes(set("A"), PM{"r": []string{}})),
			w.edgesOf(w.G.FindEdges(set(), PM{"r": []int{1}})), w.edgesOf(w.G.FindEdges(set("x"), PM{"r": []any{2, 1, 3}})), w.edgesOf(w.G.FindEdges(set(), PM{"r": []any{}})))
	})
	add("ForEachNode", func(w *World, cb func()) string {
		var o []int
		lpg.ForEachNode(w.G, func(n *lpg.Node) bool { o = append(o, w.nodeIdx(n)); cb(); return true })
		return fmt.Sprint(sortedInts(o))
	})
	add("ForEachProperty", func(w *World, cb func()) string {
		var o []string
		for _, i := range w.M.nodes(allN) {
			w.N[i].ForEachProperty(func(k string, v any) bool { o = append(o, fmt.Sprint("n", i, k, v)); cb(); return true })
		}
		for _, i := range w.M.edges(allE) {
			w.E[i].ForEachProperty(func(k string, v any) bool { o = append(o, fmt.Sprint("e", i, k, v)); cb(); return true })
		}
		return sortedJoin(o)
	})
	add("strings and labels", func(w *World, cb func()) string {
		var o []string
		for _, i := range w.M.nodes(allN) {
			w.N[i].MarshalJSON()
			o = append(o, fmt.Sprint(i, len(w.N[i].String()), w.N[i].GetLabels().SortedSlice(), w.N[i].GetID() == w.nid[i], w.N[i].HasLabel("A")))
		}
		for _, i := range w.M.edges(allE) {
			w.E[i].MarshalJSON()
			o = append(o, fmt.Sprint(i, len(w.E[i].String()), w.E[i].GetLabel(), w.E[i].GetID() == w.eid[i]))
		}
		return strings.Join(o, "; ")
	})
	add("neighbour lists", func(w *World, cb func()) string {
		var o []string
		for _, i := range w.M.nodes(allN) {
			o = append(o, fmt.Sprint(i, w.nodeList(lpg.NextNodesWith(w.N[i], "x")), w.nodeList(lpg.PrevNodesWith(w.N[i], "x"))))
			for _, j := range w.M.nodes(allN) {
				o = append(o, fmt.Sprint(i, j, w.edgeList(lpg.EdgesBetweenNodes(w.N[i], w.N[j]))))
			}
		}
		o = append(o, fmt.Sprint(w.nodeList(lpg.Sources(w.G)), w.nodeList(lpg.Sinks(w.G)), w.nodeList(lpg.SourceNodes(w.G.GetEdges())), w.nodeList(lpg.TargetNodes(w.G.GetEdges()))))
		return strings.Join(o, "; ")
	})
	for _, dir := range []lpg.EdgeDir{lpg.OutgoingEdge, lpg.AnyEdge} {
		dir := dir
		add(fmt.Sprintf("CollectAllPaths(%d)", dir), func(w *World, cb func()) string {
			var o []string
			for _, i := range w.M.nodes(allN) {
				n := w.N[i]
				lpg.CollectAllPaths(w.G, n, n.GetEdges(dir), func(e *lpg.Edge) bool { cb(); return true }, dir, 1, 3, func(p *lpg.Path) bool {
					o = append(o, w.pathStr(p))
					cb()
					return true
				})
			}
			return sortedJoin(o)
		})
	}
	for _, rp := range readPatterns {
		rp := rp
		add("pattern "+rp.name, func(w *World, cb func()) string {
			acc := &cbAcc{w: w, cb: cb}
			if err := rp.p().Run(w.G, nil, acc); err != nil {
				return "error " + err.Error()
			}
			return sortedJoin(acc.out)
		})
	}
	add("pattern with supplied sets", func(w *World, cb func()) string {
		sym := map[string]*lpg.PatternSymbol{"a": {}, "e": {}}
		for _, i := range w.M.nodes(allN) {
			sym["a"].AddNode(w.N[i])
		}
		for _, i := range w.M.edges(allE) {
			sym["e"].Add(w.E[i])
		}
		acc := &cbAcc{w: w, cb: cb}
		p := lpg.Pattern{{Name: "a"}, {Name: "e", Min: 1, Max: 1}, {Name: "b"}}
		if err := p.Run(w.G, sym, acc); err != nil {
			return "error " + err.Error()
		}
		p.GetSymbolNames()
		nodes, err := p.FindNodes(w.G, sym)
		return sortedJoin(acc.out) + fmt.Sprint(w.nodeList(nodes), err)
	})
	for _, sep := range []bool{false, true} {
		sep := sep
		add(fmt.Sprintf("Encode separate=%v", sep), func(w *World, cb func()) string {
			out := &cbWriter{cb: cb}
			err := lpg.JSON{MarshalEdgesSeparately: sep}.Encode(w.G, out)
			return fmt.Sprint(canonJSON(out.Bytes()), err)
		})
	}
	add("Encode with a marshaler", func(w *World, cb func()) string {
		out := &cbWriter{cb: func() {}}
		err := lpg.JSON{PropertyMarshaler: func(k string, v any) (string, json.RawMessage, error) {
			cb()
			b, err := json.Marshal(v)
			return k + "_", b, err
		}}.Encode(w.G, out)
		return fmt.Sprint(canonJSON(out.Bytes()), err)
	})
	add("Render", func(w *World, cb func()) string {
		out := &cbWriter{cb: cb}
		err := lpg.DOTRenderer{}.Render(w.G, "g", out)
		return fmt.Sprint(len(out.Bytes()), err)
	})
	add("Render with renderers", func(w *World, cb func()) string {
		var o []string
		err := lpg.DOTRenderer{NodeRenderer: func(id string, n *lpg.Node, _ io.Writer) (bool, error) {
			o = append(o, fmt.Sprint("n", w.nodeIdx(n)))
			cb()
			return true, nil
		}, EdgeRenderer: func(f, t string, e *lpg.Edge, _ io.Writer) (bool, error) {
			o = append(o, fmt.Sprint("e", w.edgeIdx(e)))
			cb()
			return true, nil
		}}.Render(w.G, "g", io.Discard)
		return sortedJoin(o) + fmt.Sprint(err)
	})
	add("CopyGraph from", func(w *World, cb func()) string {
		t := lpg.NewGraph()
		t.AddNodePropertyIndex("p", lpg.HashIndex)
		m := lpg.CopyGraph(w.G, t, func(k string, v any) any { cb(); return v })
		return fmt.Sprint(len(m), graphSummary(t))
	})
	add("CopyGraphf from", func(w *World, cb func()) string {
		t := lpg.NewGraph()
		m := lpg.CopyGraphf(w.G, func(n *lpg.Node, _ map[*lpg.Node]*lpg.Node) *lpg.Node {
			cb()
			return lpg.CopyNode(n, t, func(k string, v any) any { return v })
		}, func(e *lpg.Edge, m map[*lpg.Node]*lpg.Node) *lpg.Edge {
			cb()
			return lpg.CopyEdge(e, t, func(k string, v any) any { return v }, m)
		})
		return fmt.Sprint(len(m), graphSummary(t))
	})
	add("CopySubgraph from", func(w *World, cb func()) string {
		var o []string
		for _, i := range w.M.nodes(allN) {
			t := lpg.NewGraph()
			m := map[*lpg.Node]*lpg.Node{}
			lpg.CopySubgraph(w.N[i], t, func(k string, v any) any { cb(); return v }, m)
			o = append(o, fmt.Sprint(i, len(m), graphSummary(t)))
		}
		return strings.Join(o, "\n")
	})
	add("CheckIsomorphism", func(w *World, cb func()) string {
		ok, err := lpg.CheckIsomorphism(context.Background(), w.G, w.G, func(a, b *lpg.Node) bool {
			cb()
			return a.GetLabels().IsEqual(b.GetLabels())
		}, func(a, b *lpg.Edge) bool { cb(); return a.GetLabel() == b.GetLabel() })
		return fmt.Sprint(ok, err)
	})
	add("cursor walk", func(w *World, cb func()) string {
		var o []string
		for _, i := range w.M.nodes(allN) {
			c := new(lpg.Cursor).Set(w.N[i]).StartPath()
			for it := c.Forward(); it.Next(); {
				c.PushToPath(it.Edge())
				cb()
				o = append(o, w.pathStr(c.GetPath()), fmt.Sprint(w.nodesOf(c.Nodes(lpg.AnyEdge))))
				c.PopFromPath()
				o = append(o, w.pathStr(c.GetPath()))
			}
		}
		return sortedJoin(o)
	})
	add("path operations", func(w *World, cb func()) string {
		var o []string
		for _, i := range w.M.edges(allE) {
			p := lpg.NewPathFromElements(lpg.NewPathElementsFromEdges([]*lpg.Edge{w.E[i]})...)
			q := p.Clone()
			for it := w.E[i].GetTo().GetEdges(lpg.OutgoingEdge); it.Next(); {
				r := p.Clone().Append(lpg.PathElement{Edge: it.Edge()})
				o = append(o, w.pathStr(r), w.pathStr(r.Slice(1, -1)), fmt.Sprint(r.HasPrefixPath(q), len(r.String()) > 0))
				r.RemoveLast()
				o = append(o, w.pathStr(r))
				cb()
			}
			o = append(o, w.pathStr(p.RemoveLast()), w.pathStr(q.Clear()))
		}
		return sortedJoin(o)
	})
	return rs
}

// obsAll compares everything observable about the graph with the reference.
func obsAll(w *World) {
	obsContents(w)
	obsAdjacency([]string{"x", "y", "z"})(w)
	obsLabels([]string{"A", "B"}, []string{"x", "y", "z"})(w)
	obsPropLookups([]string{"p", "q"}, []any{1, 2})(w)
}
