package main

import (
	"fmt"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// Op is one step of a history. Its arguments index the tables of the Universe.
type Op struct {
	K    opKind
	A, B int16
	L, V int16
}

type opKind uint8

const (
	opNewNode opKind = iota
	opFastNewNode
	opNewEdge
	opFastNewEdge
	opLabels
	opNodeProp
	opNodeDel
	opDetach
	opRemoveNode
	opRemoveEdge
	opEdgeLabel
	opEdgeProp
	opEdgeDel
	opNodeIndex
	opEdgeIndex
	opCopyNode
	opCopyEdge
	opBadEdge
)

// Universe is an operation alphabet with bounds.
type Universe struct {
	Name       string
	LabelSets  [][]string // node label sets
	EdgeLabels []string
	NodeProps  []PM // initial property maps of nodes
	EdgeProps  []PM
	Keys       []string // property keys set and removed
	Vals       []any
	MaxN, MaxE int // elements created in total
	Depth      int
	Index      lpg.IndexType
	On         []opKind
	OnRemoved  bool // also operate on removed elements
	Seed       func(w *World)
	Shards     int         // tasks the space is split into, by the first operation
	Reread     func(w *wx) // what is read before and after the last step (default: everything)
	shard      int
	on         [32]bool
}

func (u *Universe) init() {
	for _, k := range u.On {
		u.on[k] = true
	}
	if len(u.LabelSets) == 0 {
		u.LabelSets = [][]string{{}}
	}
	if len(u.NodeProps) == 0 {
		u.NodeProps = []PM{{}}
	}
	if len(u.EdgeProps) == 0 {
		u.EdgeProps = []PM{{}}
	}
	if len(u.EdgeLabels) == 0 {
		u.EdgeLabels = []string{"x"}
	}
}

// wx is a world with the bookkeeping of the explored history.
type wx struct {
	*World
	nixs, eixs map[string]bool
	n0, e0     int // elements of the seed
}

func (u *Universe) fresh() *wx {
	w := &wx{World: newWorld(), nixs: map[string]bool{}, eixs: map[string]bool{}}
	if u.Seed != nil {
		u.Seed(w.World)
	}
	w.n0, w.e0 = len(w.N), len(w.E)
	return w
}

func (u *Universe) enabled(w *wx) []Op {
	var out []Op
	add := func(k opKind, a, b, l, v int) {
		out = append(out, Op{k, int16(a), int16(b), int16(l), int16(v)})
	}
	nn, ne := len(w.N), len(w.E)
	for _, k := range u.On {
		switch k {
		case opNewNode, opFastNewNode:
			if nn-w.n0 < u.MaxN {
				for l := range u.LabelSets {
					for v := range u.NodeProps {
						add(k, 0, 0, l, v)
					}
				}
			}
		case opNewEdge, opFastNewEdge:
			if ne-w.e0 < u.MaxE {
				for a := 0; a < nn; a++ {
					for b := 0; b < nn; b++ {
						if w.M.N[a].Gone || w.M.N[b].Gone {
							continue
						}
						for l := range u.EdgeLabels {
							for v := range u.EdgeProps {
								add(k, a, b, l, v)
							}
						}
					}
				}
			}
		case opBadEdge:
			for a := 0; a < nn; a++ {
				for b := 0; b < nn; b++ {
					if w.M.N[a].Gone || w.M.N[b].Gone {
						add(k, a, b, 0, 0)
					}
				}
			}
		case opCopyNode:
			if nn-w.n0 < u.MaxN {
				for a := 0; a < nn; a++ {
					add(k, a, 0, 0, 0)
				}
			}
		case opCopyEdge:
			if ne-w.e0 < u.MaxE {
				for a := 0; a < ne; a++ {
					if !w.M.N[w.M.E[a].From].Gone && !w.M.N[w.M.E[a].To].Gone {
						add(k, a, 0, 0, 0)
					}
				}
			}
		case opLabels, opNodeProp, opNodeDel, opDetach, opRemoveNode:
			for a := 0; a < nn; a++ {
				if w.M.N[a].Gone && !u.OnRemoved {
					continue
				}
				switch k {
				case opLabels:
					for l := range u.LabelSets {
						add(k, a, 0, l, 0)
					}
				case opNodeProp:
					for l := range u.Keys {
						for v := range u.Vals {
							add(k, a, 0, l, v)
						}
					}
				case opNodeDel:
					for l := range u.Keys {
						add(k, a, 0, l, 0)
					}
				default:
					add(k, a, 0, 0, 0)
				}
			}
		case opRemoveEdge, opEdgeLabel, opEdgeProp, opEdgeDel:
			for a := 0; a < ne; a++ {
				if w.M.E[a].Gone && !u.OnRemoved {
					continue
				}
				switch k {
				case opEdgeLabel:
					for l := range u.EdgeLabels {
						add(k, a, 0, l, 0)
					}
				case opEdgeProp:
					for l := range u.Keys {
						for v := range u.Vals {
							add(k, a, 0, l, v)
						}
					}
				case opEdgeDel:
					for l := range u.Keys {
						add(k, a, 0, l, 0)
					}
				default:
					add(k, a, 0, 0, 0)
				}
			}
		case opNodeIndex:
			for l, key := range u.Keys {
				if !w.nixs[key] {
					add(k, 0, 0, l, 0)
				}
			}
		case opEdgeIndex:
			for l, key := range u.Keys {
				if !w.eixs[key] {
					add(k, 0, 0, l, 0)
				}
			}
		}
	}
	return out
}

func (u *Universe) apply(w *wx, o Op) {
	a, b, l, v := int(o.A), int(o.B), int(o.L), int(o.V)
	switch o.K {
	case opNewNode:
		w.NewNode(u.LabelSets[l], u.NodeProps[v])
	case opFastNewNode:
		w.FastNewNode(u.LabelSets[l], u.NodeProps[v])
	case opNewEdge:
		w.NewEdge(a, b, u.EdgeLabels[l], u.EdgeProps[v])
	case opFastNewEdge:
		w.FastNewEdge(a, b, u.EdgeLabels[l], u.EdgeProps[v])
	case opBadEdge:
		if !panics(func() { w.G.NewEdge(w.N[a], w.N[b], "bad", nil) }) {
			fail("creating an edge between n%d and n%d, one of which is removed, did not panic", a, b)
		}
	case opCopyNode:
		n := lpg.CopyNode(w.N[a], w.G, func(k string, v any) any { return v })
		w.regNode(n, w.M.N[a].Labels, w.M.N[a].Props)
	case opCopyEdge:
		me := w.M.E[a]
		e := lpg.CloneEdge(w.N[me.From], w.N[me.To], w.E[a], w.G, func(k string, v any) any { return v })
		w.regEdge(e, me.From, me.To, me.Label, me.Props)
	case opLabels:
		w.SetLabels(a, u.LabelSets[l])
	case opNodeProp:
		w.SetNodeProp(a, u.Keys[l], u.Vals[v])
	case opNodeDel:
		w.DelNodeProp(a, u.Keys[l])
	case opDetach:
		w.Detach(a)
	case opRemoveNode:
		w.RemoveNode(a)
	case opRemoveEdge:
		w.RemoveEdge(a)
	case opEdgeLabel:
		w.SetEdgeLabel(a, u.EdgeLabels[l])
	case opEdgeProp:
		w.SetEdgeProp(a, u.Keys[l], u.Vals[v])
	case opEdgeDel:
		w.DelEdgeProp(a, u.Keys[l])
	case opNodeIndex:
		w.G.AddNodePropertyIndex(u.Keys[l], u.Index)
		w.nixs[u.Keys[l]] = true
	case opEdgeIndex:
		w.G.AddEdgePropertyIndex(u.Keys[l], u.Index)
		w.eixs[u.Keys[l]] = true
	}
}

func (u *Universe) opString(o Op) string {
	a, b, l, v := int(o.A), int(o.B), int(o.L), int(o.V)
	switch o.K {
	case opNewNode, opFastNewNode:
		return fmt.Sprintf("%sNewNode(%q,%s)", map[bool]string{true: "Fast"}[o.K == opFastNewNode], u.LabelSets[l], propStr(u.NodeProps[v]))
	case opNewEdge, opFastNewEdge:
		return fmt.Sprintf("%sNewEdge(n%d,n%d,%q,%s)", map[bool]string{true: "Fast"}[o.K == opFastNewEdge], a, b, u.EdgeLabels[l], propStr(u.EdgeProps[v]))
	case opBadEdge:
		return fmt.Sprintf("NewEdge(n%d,n%d) must panic", a, b)
	case opCopyNode:
		return fmt.Sprintf("CopyNode(n%d)", a)
	case opCopyEdge:
		return fmt.Sprintf("CloneEdge(e%d)", a)
	case opLabels:
		return fmt.Sprintf("n%d.SetLabels(%q)", a, u.LabelSets[l])
	case opNodeProp:
		return fmt.Sprintf("n%d.SetProperty(%q,%s)", a, u.Keys[l], valStr(u.Vals[v]))
	case opNodeDel:
		return fmt.Sprintf("n%d.RemoveProperty(%q)", a, u.Keys[l])
	case opDetach:
		return fmt.Sprintf("n%d.Detach()", a)
	case opRemoveNode:
		return fmt.Sprintf("n%d.DetachAndRemove()", a)
	case opRemoveEdge:
		return fmt.Sprintf("e%d.Remove()", a)
	case opEdgeLabel:
		return fmt.Sprintf("e%d.SetLabel(%q)", a, u.EdgeLabels[l])
	case opEdgeProp:
		return fmt.Sprintf("e%d.SetProperty(%q,%s)", a, u.Keys[l], valStr(u.Vals[v]))
	case opEdgeDel:
		return fmt.Sprintf("e%d.RemoveProperty(%q)", a, u.Keys[l])
	case opNodeIndex:
		return fmt.Sprintf("AddNodePropertyIndex(%q,%s)", u.Keys[l], ixName(u.Index))
	case opEdgeIndex:
		return fmt.Sprintf("AddEdgePropertyIndex(%q,%s)", u.Keys[l], ixName(u.Index))
	}
	return "?"
}

func ixName(t lpg.IndexType) string {
	if t == lpg.BtreeIndex {
		return "btree"
	}
	return "hash"
}

func (u *Universe) histString(h []Op) string {
	s := make([]string, len(h))
	for i, o := range h {
		s[i] = u.opString(o)
	}
	return strings.Join(s, "; ")
}

// explore enumerates all histories of the universe up to its depth, merging
// histories that lead to isomorphic states, and calls observe on every state
// for every map order in scheds.
func (u *Universe) explore(c *Ctx, scheds []int, observe func(w *wx)) {
	u.init()
	seen := map[fpKey]struct{}{}
	frontier := [][]Op{{}}
	build := func(h []Op) *wx {
		w := u.fresh()
		for _, o := range h {
			u.apply(w, o)
		}
		return w
	}
	// reread runs the last step of a history between two complete readings of
	// the graph: what the first one may have cached must not show afterwards.
	reread := func(h []Op) bool {
		if len(h) == 0 {
			return true
		}
		return c.Case(func() string {
			return u.Name + ": " + u.histString(h[:len(h)-1]) + "; read; " + u.histString(h[len(h)-1:])
		}, func() {
			read := observe
			if u.Reread != nil {
				read = u.Reread
			}
			mapDefault(scheds[len(scheds)-1])
			w := build(h[:len(h)-1])
			read(w)
			u.apply(w, h[len(h)-1])
			read(w)
			c.st.Checks += w.checks
			c.st.Traces++
			mapDefault(scheds[0])
		})
	}
	visit := func(h []Op) (fpKey, bool) {
		var key fpKey
		ok := c.Case(func() string { return u.Name + ": " + u.histString(h) }, func() {
			mapDefault(scheds[0])
			w := build(h)
			key = fingerprint(fmt.Sprint(w.nixs, w.eixs), w.G, w.N, w.E, w.M)
			if _, dup := seen[key]; dup {
				return
			}
			observe(w)
			c.st.Checks += w.checks
			c.st.Traces++
			for _, s := range scheds[1:] {
				mapDefault(s)
				w := build(h)
				observe(w)
				c.st.Checks += w.checks
				c.st.Traces++
			}
			mapDefault(scheds[0])
		})
		mapDefault(scheds[0])
		return key, ok
	}
	k, ok := visit(nil)
	if !ok {
		return
	}
	seen[k] = struct{}{}
	c.st.States++
	for d := 0; d < u.Depth; d++ {
		var next [][]Op
		for _, h := range frontier {
			w := build(h)
			for i, o := range u.enabled(w) {
				if d == 0 && u.Shards > 1 && i%u.Shards != u.shard {
					continue
				}
				nh := make([]Op, len(h)+1)
				copy(nh, h)
				nh[len(h)] = o
				c.st.Transitions++
				k, ok := visit(nh)
				if !ok || !reread(nh) {
					continue
				}
				if _, dup := seen[k]; dup {
					continue
				}
				seen[k] = struct{}{}
				c.st.States++
				next = append(next, nh)
			}
		}
		frontier = next
		if len(frontier) == 0 {
			break
		}
	}
	mapDefault(0)
}
