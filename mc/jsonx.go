package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// SG is a graph reduced to strings: the reference for graphs that are compared
// up to the identity of their elements.
type SG struct {
	N []string
	E []SE
}

type SE struct {
	F, T int
	S    string
}

func (s *SG) String() string {
	sb := strings.Builder{}
	for i, n := range s.N {
		fmt.Fprintf(&sb, "  n%d %s\n", i, n)
	}
	for _, e := range s.E {
		fmt.Fprintf(&sb, "  n%d->n%d %s\n", e.F, e.T, e.S)
	}
	return sb.String()
}

// plus is the disjoint union.
func (s *SG) plus(o *SG) *SG {
	r := &SG{N: append(append([]string{}, s.N...), o.N...), E: append([]SE{}, s.E...)}
	for _, e := range o.E {
		r.E = append(r.E, SE{e.F + len(s.N), e.T + len(s.N), e.S})
	}
	return r
}

// iso decides by brute force whether the graphs are the same up to numbering.
func (s *SG) iso(o *SG) bool {
	if len(s.N) != len(o.N) || len(s.E) != len(o.E) {
		return false
	}
	n := len(s.N)
	sn, on := s.N, o.N
	if n > 6 {
		// nodes that correspond have the same surroundings
		sn, on = refine(s, o)
		x, y := append([]string{}, sn...), append([]string{}, on...)
		sort.Strings(x)
		sort.Strings(y)
		if !sameStrs(x, y) {
			return false
		}
	}
	between := func(g *SG) [][]string {
		out := make([][]string, n*n)
		for _, e := range g.E {
			out[e.F*n+e.T] = append(out[e.F*n+e.T], e.S)
		}
		for i := range out {
			sort.Strings(out[i])
		}
		return out
	}
	a, b := between(s), between(o)
	// neighbours are assigned one after the other
	order := make([]int, 0, n)
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		if !seen[i] {
			seen[i] = true
			order = append(order, i)
		}
		for k := len(order) - 1; n > 6 && k < len(order); k++ {
			for _, e := range s.E {
				for _, x := range [][2]int{{e.F, e.T}, {e.T, e.F}} {
					if x[0] == order[k] && !seen[x[1]] {
						seen[x[1]] = true
						order = append(order, x[1])
					}
				}
			}
		}
	}
	to := make([]int, n)
	used := make([]bool, n)
	var rec func(x int) bool
	rec = func(x int) bool {
		if x == n {
			return true
		}
		i := order[x]
		for j := 0; j < n; j++ {
			if used[j] || sn[i] != on[j] {
				continue
			}
			to[i] = j
			ok := true
			for y := 0; y <= x && ok; y++ {
				k := order[y]
				ok = sameStrs(a[i*n+k], b[j*n+to[k]]) && sameStrs(a[k*n+i], b[to[k]*n+j])
			}
			if ok {
				used[j] = true
				if rec(x + 1) {
					return true
				}
				used[j] = false
			}
		}
		return false
	}
	return rec(0)
}

// refine gives the nodes of both graphs classes such that corresponding nodes
// of isomorphic graphs are in the same class.
func refine(a, b *SG) (ca, cb []string) {
	cl := [2][]string{a.N, b.N}
	count := 0
	for round := 0; round <= len(a.N); round++ {
		names := map[string]string{}
		var next [2][]string
		for gi, g := range []*SG{a, b} {
			sig := make([][]string, len(g.N))
			for _, e := range g.E {
				sig[e.F] = append(sig[e.F], ">"+e.S+"\x00"+cl[gi][e.T])
				sig[e.T] = append(sig[e.T], "<"+e.S+"\x00"+cl[gi][e.F])
			}
			for i, l := range sig {
				sort.Strings(l)
				k := cl[gi][i] + "\x01" + strings.Join(l, "\x01")
				if _, ok := names[k]; !ok {
					names[k] = fmt.Sprint(len(names))
				}
				next[gi] = append(next[gi], names[k])
			}
		}
		cl = next
		if len(names) == count {
			break
		}
		count = len(names)
	}
	return cl[0], cl[1]
}

func nodeStr(labels []string, props string) string {
	return fmt.Sprintf("%q %s", normLabels(labels), props)
}
func edgeStr(label string, props string) string { return fmt.Sprintf("%q %s", label, props) }

// typedStr tells values apart by content and type.
func typedStr(p PM) string {
	keys := make([]string, 0, len(p))
	for k := range p {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	sb := strings.Builder{}
	for _, k := range keys {
		fmt.Fprintf(&sb, "%q=%s ", k, typedVal(p[k]))
	}
	return "{" + sb.String() + "}"
}

func typedVal(v any) string {
	switch x := v.(type) {
	case []any:
		s := make([]string, len(x))
		for i := range x {
			s[i] = typedVal(x[i])
		}
		return "[" + strings.Join(s, ",") + "]"
	case map[string]any:
		return typedStr(x)
	case float64:
		return fmt.Sprintf("%g", x)
	case string:
		return fmt.Sprintf("%q", x)
	case bool, nil:
		return fmt.Sprint(x)
	}
	return fmt.Sprintf("%T(%#v)", v, v)
}

func propsOf(p interface {
	ForEachProperty(func(string, interface{}) bool) bool
}) PM {
	out := PM{}
	p.ForEachProperty(func(k string, v any) bool { out[k] = v; return true })
	return out
}

// summary reads a whole graph through the public API.
func summary(g *lpg.Graph, val func(PM) string) *SG {
	s := &SG{}
	ix := map[*lpg.Node]int{}
	for it := g.GetNodes(); it.Next(); {
		n := it.Node()
		if _, dup := ix[n]; dup {
			fail("a node is listed twice")
		}
		ix[n] = len(s.N)
		s.N = append(s.N, nodeStr(n.GetLabels().Slice(), val(propsOf(n))))
	}
	seen := map[*lpg.Edge]bool{}
	for it := g.GetEdges(); it.Next(); {
		e := it.Edge()
		f, ok1 := ix[e.GetFrom()]
		t, ok2 := ix[e.GetTo()]
		if !ok1 || !ok2 || seen[e] {
			fail("an edge is listed twice or its end is not a node of the graph")
		}
		seen[e] = true
		s.E = append(s.E, SE{f, t, edgeStr(e.GetLabel(), val(propsOf(e)))})
	}
	if g.NumNodes() != len(s.N) || g.NumEdges() != len(s.E) {
		fail("the graph counts %d nodes and %d edges, but lists %d and %d", g.NumNodes(), g.NumEdges(), len(s.N), len(s.E))
	}
	return s
}

// sg is the reference graph with the property maps passed through val.
func (m *Model) sg(val func(PM) string) *SG {
	s := &SG{}
	ix := make([]int, len(m.N))
	for i := range m.N {
		if m.N[i].Gone {
			continue
		}
		ix[i] = len(s.N)
		s.N = append(s.N, nodeStr(m.N[i].Labels, val(m.N[i].Props)))
	}
	for i := range m.E {
		if e := &m.E[i]; !e.Gone {
			s.E = append(s.E, SE{ix[e.From], ix[e.To], edgeStr(e.Label, val(e.Props))})
		}
	}
	return s
}

// normJSON is the value after a trip through encoding/json.
func normJSON(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic("bad test value: " + err.Error())
	}
	var out any
	if err := json.Unmarshal(b, &out); err != nil {
		panic("bad test value: " + err.Error())
	}
	return out
}

func normProps(p PM) PM {
	out := PM{}
	for k, v := range p {
		out[k] = normJSON(v)
	}
	return out
}

// ---- documents

type docNode struct {
	N          int                        `json:"n"`
	Labels     []string                   `json:"labels"`
	Properties map[string]json.RawMessage `json:"properties"`
	Edges      []docEdge                  `json:"edges"`
}

type docEdge struct {
	From       int                        `json:"from"`
	To         int                        `json:"to"`
	Label      string                     `json:"label"`
	Properties map[string]json.RawMessage `json:"properties"`
}

func rawProps(m map[string]json.RawMessage) PM {
	out := PM{}
	for k, v := range m {
		var x any
		if err := json.Unmarshal(v, &x); err != nil {
			fail("property %q has the invalid value %s", k, v)
		}
		out[k] = x
	}
	return out
}

// checkLayout checks that doc is one document of the documented layout, and
// returns the graph it describes.
func checkLayout(doc []byte, separate bool, val func(PM) string) *SG {
	bad := func(format string, args ...any) {
		fail("the encoded document is not of the documented layout: %s\n%s", fmt.Sprintf(format, args...), doc)
	}
	if !json.Valid(doc) {
		bad("not one valid JSON value")
	}
	keys := func(raw json.RawMessage, allowed ...string) map[string]json.RawMessage {
		d := json.NewDecoder(bytes.NewReader(raw))
		if t, _ := d.Token(); t != json.Delim('{') {
			bad("%s is not an object", raw)
		}
		out := map[string]json.RawMessage{}
		for d.More() {
			t, _ := d.Token()
			k := t.(string)
			if !hasStr(allowed, k) {
				bad("member %q is not documented", k)
			}
			if _, dup := out[k]; dup {
				bad("member %q occurs twice", k)
			}
			var r json.RawMessage
			if err := d.Decode(&r); err != nil {
				bad("%v", err)
			}
			out[k] = r
		}
		return out
	}
	list := func(raw json.RawMessage) (out []json.RawMessage) {
		if raw == nil {
			return nil
		}
		if raw[0] != '[' || json.Unmarshal(raw, &out) != nil {
			bad("%s is not an array", raw)
		}
		return
	}
	num := func(raw json.RawMessage, what string) (n int) {
		if raw == nil || json.Unmarshal(raw, &n) != nil {
			bad("%s is missing or not a number", what)
		}
		return
	}
	str := func(raw json.RawMessage) (s string) {
		if raw != nil && json.Unmarshal(raw, &s) != nil {
			bad("%s is not a string", raw)
		}
		return
	}
	props := func(raw json.RawMessage) PM {
		if raw == nil {
			return PM{}
		}
		d := json.NewDecoder(bytes.NewReader(raw))
		if t, _ := d.Token(); t != json.Delim('{') {
			bad("%s is not an object", raw)
		}
		out := PM{}
		for d.More() {
			t, _ := d.Token()
			k := t.(string)
			if _, dup := out[k]; dup {
				bad("property %q occurs twice", k)
			}
			var x any
			if err := d.Decode(&x); err != nil {
				bad("%v", err)
			}
			out[k] = x
		}
		return out
	}
	top := keys(doc, "nodes", "edges")
	if !separate && top["edges"] != nil {
		bad("edges are separate")
	}
	s := &SG{}
	ix := map[int]int{}
	type pend struct {
		f, t int
		s    string
	}
	var es []pend
	edge := func(raw json.RawMessage, from int, embedded bool) {
		allowed := []string{"to", "label", "properties"}
		if !embedded {
			allowed = append(allowed, "from")
		}
		m := keys(raw, allowed...)
		if !embedded {
			from = num(m["from"], "from")
		}
		es = append(es, pend{from, num(m["to"], "to"), edgeStr(str(m["label"]), val(props(m["properties"])))})
	}
	for _, raw := range list(top["nodes"]) {
		allowed := []string{"n", "labels", "properties"}
		if !separate {
			allowed = append(allowed, "edges")
		}
		m := keys(raw, allowed...)
		n := num(m["n"], "n")
		if _, dup := ix[n]; dup {
			bad("node number %d is used twice", n)
		}
		ix[n] = len(s.N)
		var ls []string
		for _, l := range list(m["labels"]) {
			x := str(l)
			if hasStr(ls, x) {
				bad("label %q occurs twice", x)
			}
			ls = append(ls, x)
		}
		s.N = append(s.N, nodeStr(ls, val(props(m["properties"]))))
		for _, e := range list(m["edges"]) {
			edge(e, n, true)
		}
	}
	for _, e := range list(top["edges"]) {
		edge(e, 0, false)
	}
	for _, e := range es {
		f, ok1 := ix[e.f]
		t, ok2 := ix[e.t]
		if !ok1 || !ok2 {
			bad("an edge names an unknown node")
		}
		s.E = append(s.E, SE{f, t, e.s})
	}
	return s
}

// refDoc reads a document the way it is documented. verdict: 1 valid, 0 must be
// rejected, -1 not claimed (several equal node numbers, repeated sections).
func refDoc(doc []byte, val func(PM) string) (s *SG, verdict int, why string) {
	d := json.NewDecoder(bytes.NewReader(doc))
	var raw json.RawMessage
	if err := d.Decode(&raw); err != nil {
		return nil, 0, "it is not valid JSON: " + err.Error()
	}
	d = json.NewDecoder(bytes.NewReader(raw))
	if t, _ := d.Token(); t != json.Delim('{') {
		return nil, 0, "it is not an object"
	}
	s = &SG{}
	ix := map[int]int{}
	type pend struct {
		f, t int
		s    string
	}
	var es []pend
	verdict = 1
	seen := map[string]bool{}
	reject := func(w string) {
		if verdict == 1 {
			verdict, why = 0, w
		}
	}
	unclaimed := false
	for d.More() {
		t, _ := d.Token()
		k, _ := t.(string)
		var r json.RawMessage
		if err := d.Decode(&r); err != nil {
			return nil, 0, err.Error()
		}
		for _, x := range []string{"nodes", "edges"} {
			if strings.EqualFold(k, x) && k != x {
				unclaimed = true
			}
		}
		if k != "nodes" && k != "edges" {
			continue
		}
		if seen[k] || string(r) == "null" {
			unclaimed = true
		}
		seen[k] = true
		if k == "nodes" {
			var ns []docNode
			if err := json.Unmarshal(r, &ns); err != nil {
				reject("nodes: " + err.Error())
				continue
			}
			for _, n := range ns {
				if _, dup := ix[n.N]; dup {
					unclaimed = true
				}
				ix[n.N] = len(s.N)
				s.N = append(s.N, nodeStr(n.Labels, val(rawProps(n.Properties))))
				for _, e := range n.Edges {
					es = append(es, pend{n.N, e.To, edgeStr(e.Label, val(rawProps(e.Properties)))})
				}
			}
		} else {
			var el []docEdge
			if err := json.Unmarshal(r, &el); err != nil {
				reject("edges: " + err.Error())
				continue
			}
			for _, e := range el {
				es = append(es, pend{e.From, e.To, edgeStr(e.Label, val(rawProps(e.Properties)))})
			}
		}
	}
	for _, e := range es {
		f, ok1 := ix[e.f]
		t, ok2 := ix[e.t]
		if !ok1 || !ok2 {
			reject("an edge names an unknown node")
			continue
		}
		s.E = append(s.E, SE{f, t, e.s})
	}
	if unclaimed {
		return nil, -1, ""
	}
	return s, verdict, why
}

// ---- faulty readers and writers

var errInjected = errors.New("injected failure")

// cutReader gives data in chunks of the given sizes (the last one is repeated),
// then fails with err.
type cutReader struct {
	data   []byte
	chunks []int
	k      int
	err    error
	withE  bool // the error comes together with the last data
	zero   bool // an empty read before every chunk
	gave0  bool
}

func (r *cutReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.err
	}
	if r.zero && !r.gave0 {
		r.gave0 = true
		return 0, nil
	}
	r.gave0 = false
	n := len(r.data)
	if len(r.chunks) > 0 {
		if c := r.chunks[min(r.k, len(r.chunks)-1)]; c < n {
			n = c
		}
		r.k++
	}
	n = min(n, len(p))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.withE {
		return n, r.err
	}
	return n, nil
}

// faultWriter keeps what is written and fails at a call or a byte.
type faultWriter struct {
	buf    bytes.Buffer
	calls  int
	failAt int // fail the call with this number (1..), 0: never
	sticky bool
	bytes  int // accept this many bytes only, -1: no limit
	failed bool
}

func (f *faultWriter) Write(p []byte) (int, error) {
	f.calls++
	if f.failAt > 0 && (f.calls == f.failAt || f.sticky && f.calls > f.failAt) {
		f.failed = true
		return 0, errInjected
	}
	if f.bytes >= 0 && f.buf.Len()+len(p) > f.bytes {
		n := f.bytes - f.buf.Len()
		f.buf.Write(p[:n])
		f.failed = true
		return n, errInjected
	}
	return f.buf.Write(p)
}

var _ io.Writer = &faultWriter{}

func sameAny(a, b any) bool { return reflect.DeepEqual(a, b) }
