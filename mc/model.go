package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

type PM = map[string]any

// MNode and MEdge are the reference: plain lists of elements with a removed flag.
type MNode struct {
	Labels []string // sorted, unique
	Props  PM
	Gone   bool
}

type MEdge struct {
	From, To int
	Label    string
	Props    PM
	Gone     bool
}

type Model struct {
	N []MNode
	E []MEdge
}

// World is the implementation under test together with its reference.
type World struct {
	allFinds bool // runPattern asks all the ways there are to run a pattern
	G  *lpg.Graph
	N  []*lpg.Node
	E  []*lpg.Edge
	M  Model
	np map[*lpg.Node]int
	ep map[*lpg.Edge]int
	// identifiers at creation
	nid, eid []int
	checks   int64
	// filter predicates created when the graph was read first
	nf map[string]func(*lpg.Node) bool
	ef map[string]func(*lpg.Edge) bool
}

func newWorld() *World {
	return &World{G: lpg.NewGraph(), np: map[*lpg.Node]int{}, ep: map[*lpg.Edge]int{}}
}

func normLabels(l []string) []string {
	m := map[string]bool{}
	out := []string{}
	for _, x := range l {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

func copyPM(p PM) PM {
	out := make(PM, len(p))
	for k, v := range p {
		out[k] = copyVal(v)
	}
	return out
}

func copyVal(v any) any {
	switch x := v.(type) {
	case []string:
		return append([]string{}, x...)
	case []int:
		return append([]int{}, x...)
	case []any:
		l := make([]any, len(x))
		for i := range x {
			l[i] = copyVal(x[i])
		}
		return l
	case PM:
		return copyPM(x)
	case native:
		return native{copyVal(x.V)}
	}
	return v
}

func hasAll(have, want []string) bool {
	for _, w := range want {
		if !hasStr(have, w) {
			return false
		}
	}
	return true
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (w *World) regNode(n *lpg.Node, labels []string, props PM) int {
	if n == nil {
		fail("a nil node was returned")
	}
	w.N = append(w.N, n)
	w.np[n] = len(w.N) - 1
	w.nid = append(w.nid, n.GetID())
	w.M.N = append(w.M.N, MNode{Labels: normLabels(labels), Props: copyPM(props)})
	return len(w.N) - 1
}

func (w *World) regEdge(e *lpg.Edge, from, to int, label string, props PM) int {
	if e == nil {
		fail("a nil edge was returned")
	}
	w.E = append(w.E, e)
	w.ep[e] = len(w.E) - 1
	w.eid = append(w.eid, e.GetID())
	w.M.E = append(w.M.E, MEdge{From: from, To: to, Label: label, Props: copyPM(props)})
	return len(w.E) - 1
}

// ---- mutations, applied to the implementation and the reference

func (w *World) NewNode(labels []string, props PM) int {
	return w.regNode(w.G.NewNode(append([]string(nil), labels...), copyPM(props)), labels, props)
}

func (w *World) FastNewNode(labels []string, props PM) int {
	return w.regNode(w.G.FastNewNode(lpg.NewStringSet(labels...), copyPM(props)), labels, props)
}

func (w *World) NewEdge(from, to int, label string, props PM) int {
	return w.regEdge(w.G.NewEdge(w.N[from], w.N[to], label, copyPM(props)), from, to, label, props)
}

func (w *World) FastNewEdge(from, to int, label string, props PM) int {
	return w.regEdge(w.G.FastNewEdge(w.N[from], w.N[to], label, copyPM(props)), from, to, label, props)
}

func (w *World) SetLabels(n int, labels []string) {
	w.N[n].SetLabels(lpg.NewStringSet(labels...))
	w.M.N[n].Labels = normLabels(labels)
}

func (w *World) SetNodeProp(n int, k string, v any) {
	w.N[n].SetProperty(k, v)
	w.M.N[n].Props[k] = v
}

func (w *World) DelNodeProp(n int, k string) {
	w.N[n].RemoveProperty(k)
	delete(w.M.N[n].Props, k)
}

func (w *World) detachModel(n int) {
	for i := range w.M.E {
		if w.M.E[i].From == n || w.M.E[i].To == n {
			w.M.E[i].Gone = true
		}
	}
}

func (w *World) Detach(n int) {
	w.N[n].Detach()
	w.detachModel(n)
}

func (w *World) RemoveNode(n int) {
	w.N[n].DetachAndRemove()
	w.detachModel(n)
	w.M.N[n].Gone = true
}

func (w *World) RemoveEdge(e int) {
	w.E[e].Remove()
	w.M.E[e].Gone = true
}

func (w *World) SetEdgeLabel(e int, l string) {
	w.E[e].SetLabel(l)
	w.M.E[e].Label = l
}

func (w *World) SetEdgeProp(e int, k string, v any) {
	w.E[e].SetProperty(k, v)
	w.M.E[e].Props[k] = v
}

func (w *World) DelEdgeProp(e int, k string) {
	w.E[e].RemoveProperty(k)
	delete(w.M.E[e].Props, k)
}

// ---- reading the implementation

const iterCap = 200000

func (w *World) nodeIdx(n *lpg.Node) int {
	if n == nil {
		fail("an iterator or list contains a nil node")
	}
	i, ok := w.np[n]
	if !ok {
		fail("an unknown node is listed: %v", n)
	}
	return i
}

func (w *World) edgeIdx(e *lpg.Edge) int {
	if e == nil {
		fail("an iterator or list contains a nil edge")
	}
	i, ok := w.ep[e]
	if !ok {
		fail("an unknown edge is listed: %v", e)
	}
	return i
}

func (w *World) nodesOf(it lpg.NodeIterator) []int {
	if it == nil {
		fail("a nil iterator was returned")
	}
	out := []int{}
	for it.Next() {
		out = append(out, w.nodeIdx(it.Node()))
		if len(out) > iterCap {
			fail("the iterator does not end")
		}
	}
	sort.Ints(out)
	return out
}

func (w *World) edgesOf(it lpg.EdgeIterator) []int {
	if it == nil {
		fail("a nil iterator was returned")
	}
	out := []int{}
	for it.Next() {
		out = append(out, w.edgeIdx(it.Edge()))
		if len(out) > iterCap {
			fail("the iterator does not end")
		}
	}
	sort.Ints(out)
	return out
}

func (w *World) nodeList(l []*lpg.Node) []int {
	out := []int{}
	for _, n := range l {
		out = append(out, w.nodeIdx(n))
	}
	sort.Ints(out)
	return out
}

func (w *World) edgeList(l []*lpg.Edge) []int {
	out := []int{}
	for _, e := range l {
		out = append(out, w.edgeIdx(e))
	}
	sort.Ints(out)
	return out
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// expect compares two sorted lists of element numbers.
func (w *World) expect(got, want []int, format string, args ...any) {
	w.checks++
	if !sameInts(got, want) {
		if len(got)+len(want) > 10000 {
			fail("%s: got %d elements, expected %d", fmt.Sprintf(format, args...), len(got), len(want))
		}
		fail("%s: got elements %v, expected %v\nreference:\n%s", fmt.Sprintf(format, args...), got, want, w.M.String())
	}
}

func (m *Model) nodes(f func(i int, n *MNode) bool) []int {
	out := []int{}
	for i := range m.N {
		if !m.N[i].Gone && f(i, &m.N[i]) {
			out = append(out, i)
		}
	}
	return out
}

func (m *Model) edges(f func(i int, e *MEdge) bool) []int {
	out := []int{}
	for i := range m.E {
		if !m.E[i].Gone && f(i, &m.E[i]) {
			out = append(out, i)
		}
	}
	return out
}

func allN(int, *MNode) bool { return true }
func allE(int, *MEdge) bool { return true }

func uniq(l []int) []int {
	sort.Ints(l)
	out := []int{}
	for i, x := range l {
		if i == 0 || x != l[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// ---- values

type native struct{ V any }

func (n native) GetNativeValue() any { return n.V }

type nativePtr struct{ V any }

func (n *nativePtr) GetNativeValue() any { return n.V }

// canonVal is the reference notion of a property value: natives unwrapped and
// all list representations alike.
func canonVal(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case lpg.WithNativeValue:
		return canonVal(x.GetNativeValue())
	case int:
		return fmt.Sprintf("i%d", x)
	case string:
		return fmt.Sprintf("s%q", x)
	case []int:
		s := "["
		for _, y := range x {
			s += canonVal(y) + ","
		}
		return s + "]"
	case []string:
		s := "["
		for _, y := range x {
			s += canonVal(y) + ","
		}
		return s + "]"
	case []any:
		s := "["
		for _, y := range x {
			s += canonVal(y) + ","
		}
		return s + "]"
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func valEq(a, b any) bool { return canonVal(a) == canonVal(b) }

func propsMatch(have, want PM) bool {
	for k, v := range want {
		h, ok := have[k]
		if !ok || !valEq(h, v) {
			return false
		}
	}
	return true
}

func sameProps(a, b PM) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		x, ok := b[k]
		if !ok || !reflect.DeepEqual(x, v) {
			return false
		}
	}
	return true
}

func propStr(p PM) string {
	keys := make([]string, 0, len(p))
	for k := range p {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	sb := strings.Builder{}
	sb.WriteString("{")
	for i, k := range keys {
		if i > 0 {
			sb.WriteString(" ")
		}
		fmt.Fprintf(&sb, "%q:%s", k, valStr(p[k]))
	}
	sb.WriteString("}")
	return sb.String()
}

func valStr(v any) string {
	switch x := v.(type) {
	case native:
		return "native(" + valStr(x.V) + ")"
	case *nativePtr:
		return "native*(" + valStr(x.V) + ")"
	case string:
		return fmt.Sprintf("%q", x)
	case []string, []int, []any:
		return fmt.Sprintf("%T%q", x, fmt.Sprint(x))
	}
	return fmt.Sprint(v)
}

func (m *Model) String() string {
	sb := strings.Builder{}
	for i, n := range m.N {
		if n.Gone {
			fmt.Fprintf(&sb, "  n%d removed\n", i)
			continue
		}
		fmt.Fprintf(&sb, "  n%d %q %s\n", i, n.Labels, propStr(n.Props))
	}
	for i, e := range m.E {
		if e.Gone {
			fmt.Fprintf(&sb, "  e%d removed\n", i)
			continue
		}
		fmt.Fprintf(&sb, "  e%d n%d->n%d %q %s\n", i, e.From, e.To, e.Label, propStr(e.Props))
	}
	return sb.String()
}

// subsets returns all subsets of l, in a fixed order.
func subsets(l []string) [][]string {
	out := [][]string{}
	for m := 0; m < 1<<len(l); m++ {
		s := []string{}
		for i := range l {
			if m&(1<<i) != 0 {
				s = append(s, l[i])
			}
		}
		out = append(out, s)
	}
	return out
}

func set(s ...string) lpg.StringSet { return lpg.NewStringSet(s...) }
