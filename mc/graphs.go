package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
)

// NK and EK are kinds of nodes and edges of an enumerated graph.
type NK struct {
	L []string
	P PM
}

type EK struct {
	L string
	P PM
}

type GE struct{ From, To, Kind int }

// GSpec is one graph of an enumerated family.
type GSpec struct {
	NKs   []NK
	EKs   []EK
	Nodes []int // kind of each node
	Edges []GE
}

func (g *GSpec) String() string {
	sb := strings.Builder{}
	for i, k := range g.Nodes {
		fmt.Fprintf(&sb, "n%d%q%s ", i, g.NKs[k].L, propStr(g.NKs[k].P))
	}
	for i, e := range g.Edges {
		fmt.Fprintf(&sb, "e%d:n%d->n%d[%s]%s ", i, e.From, e.To, g.EKs[e.Kind].L, propStr(g.EKs[e.Kind].P))
	}
	return sb.String()
}

// fill creates the graph; norder and eorder are the creation orders (nil: as
// numbered). Elements keep their numbers in the world whatever the order.
func (g *GSpec) fill(w *World, norder, eorder []int) {
	n0, e0 := len(w.N), len(w.E)
	for range g.Nodes {
		w.N = append(w.N, nil)
		w.nid = append(w.nid, 0)
		w.M.N = append(w.M.N, MNode{})
	}
	for k := range g.Nodes {
		i := k
		if norder != nil {
			i = norder[k]
		}
		nk := g.NKs[g.Nodes[i]]
		n := w.G.NewNode(nk.L, nk.P)
		w.N[n0+i], w.nid[n0+i] = n, n.GetID()
		w.np[n] = n0 + i
		w.M.N[n0+i] = MNode{Labels: normLabels(nk.L), Props: copyPM(nk.P)}
	}
	for range g.Edges {
		w.E = append(w.E, nil)
		w.eid = append(w.eid, 0)
		w.M.E = append(w.M.E, MEdge{})
	}
	for k := range g.Edges {
		i := k
		if eorder != nil {
			i = eorder[k]
		}
		ge := g.Edges[i]
		ek := g.EKs[ge.Kind]
		e := w.G.NewEdge(w.N[n0+ge.From], w.N[n0+ge.To], ek.L, ek.P)
		w.E[e0+i], w.eid[e0+i] = e, e.GetID()
		w.ep[e] = e0 + i
		w.M.E[e0+i] = MEdge{From: n0 + ge.From, To: n0 + ge.To, Label: ek.L, Props: copyPM(ek.P)}
	}
}

func (g *GSpec) code(perm []int) string {
	b := make([]byte, 0, len(g.Nodes)+3*len(g.Edges))
	inv := make([]int, len(perm))
	for i, p := range perm {
		inv[p] = i
	}
	for _, p := range perm {
		b = append(b, byte(g.Nodes[p]))
	}
	es := make([]string, 0, len(g.Edges))
	for _, e := range g.Edges {
		es = append(es, string([]byte{byte(inv[e.From]), byte(inv[e.To]), byte(e.Kind)}))
	}
	sort.Strings(es)
	return string(b) + strings.Join(es, "")
}

var permCache = map[int][][]int{}

func perms(n int) [][]int {
	if p, ok := permCache[n]; ok {
		return p
	}
	var out [][]int
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
	permCache[n] = out
	return out
}

// enumGraphs calls f with every graph with n nodes and minE..maxE edges over
// the given kinds, one per isomorphism class.
func enumGraphs(n, minE, maxE int, nks []NK, eks []EK, f func(g *GSpec)) {
	types := []GE{}
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for k := range eks {
				types = append(types, GE{a, b, k})
			}
		}
	}
	ps := perms(n)
	kinds := make([]int, n)
	var edges []GE
	var recE func(from int)
	emit := func() {
		g := &GSpec{NKs: nks, EKs: eks, Nodes: append([]int{}, kinds...), Edges: append([]GE{}, edges...)}
		c := g.code(ps[0])
		for _, p := range ps[1:] {
			if g.code(p) < c {
				return
			}
		}
		f(g)
	}
	recE = func(from int) {
		if len(edges) >= minE {
			emit()
		}
		if len(edges) == maxE {
			return
		}
		for t := from; t < len(types); t++ {
			edges = append(edges, types[t])
			recE(t)
			edges = edges[:len(edges)-1]
		}
	}
	var recN func(i int)
	recN = func(i int) {
		if i == n {
			recE(0)
			return
		}
		for k := range nks {
			kinds[i] = k
			recN(i + 1)
		}
	}
	recN(0)
}

// shapes that are too big to be met by the enumeration
func bigShapes() []*GSpec {
	nks := []NK{{}, {L: []string{"A"}}, {L: []string{"A", "B"}, P: PM{"p": 1}}}
	eks := []EK{{L: "x"}, {L: "y"}, {L: "x", P: PM{"p": 1}}}
	mk := func(nodes string, edges ...GE) *GSpec {
		g := &GSpec{NKs: nks, EKs: eks, Edges: edges}
		for _, c := range nodes {
			g.Nodes = append(g.Nodes, int(c-'0'))
		}
		return g
	}
	return []*GSpec{
		mk("0120", GE{0, 1, 0}, GE{1, 2, 0}, GE{2, 3, 0}, GE{3, 0, 1}),
		mk("111", GE{0, 1, 0}, GE{1, 0, 0}, GE{1, 2, 0}, GE{2, 1, 1}, GE{0, 2, 2}, GE{2, 0, 0}),
		mk("0112", GE{0, 1, 0}, GE{0, 2, 0}, GE{1, 3, 0}, GE{2, 3, 1}, GE{3, 3, 0}),
		mk("01201", GE{0, 1, 0}, GE{0, 2, 1}, GE{3, 0, 0}, GE{4, 0, 2}, GE{0, 0, 0}),
		mk("12", GE{0, 1, 0}, GE{0, 1, 0}, GE{0, 1, 1}, GE{1, 0, 2}, GE{1, 0, 0}, GE{0, 0, 1}, GE{1, 1, 0}),
		mk("01210", GE{0, 1, 0}, GE{2, 1, 0}, GE{2, 3, 1}, GE{4, 3, 0}, GE{4, 4, 0}),
	}
}

// ---- patterns and their reference semantics

type PI struct {
	L        []string
	P        PM
	Min, Max int
	Dir      int // 1 ->, -1 <-, 0 --
	Name     string
}

type Pat []PI

func (p Pat) String() string {
	sb := strings.Builder{}
	for i, x := range p {
		cond := x.Name
		if len(x.L) > 0 {
			cond += ":" + strings.Join(x.L, "|")
		}
		if len(x.P) > 0 {
			cond += propStr(x.P)
		}
		if i%2 == 0 {
			sb.WriteString("(" + cond + ")")
			continue
		}
		if x.Min != 1 || x.Max != 1 {
			cond += fmt.Sprintf("*%d..%d", x.Min, x.Max)
		}
		l, r := "-", "-"
		if x.Dir > 0 {
			r = "->"
		} else if x.Dir < 0 {
			l = "<-"
		}
		sb.WriteString(l + "[" + cond + "]" + r)
	}
	return sb.String()
}

func (p Pat) lpg() lpg.Pattern {
	out := make(lpg.Pattern, len(p))
	for i, x := range p {
		out[i] = lpg.PatternItem{Min: x.Min, Max: x.Max, Name: x.Name, ToLeft: x.Dir < 0, Undirected: x.Dir == 0}
		if i%2 == 0 {
			out[i].Undirected = false
			out[i].ToLeft = false
		}
		if len(x.L) > 0 {
			out[i].Labels = set(x.L...)
		}
		if len(x.P) > 0 {
			out[i].Properties = copyPM(x.P)
		}
	}
	return out
}

func (p Pat) mirror() Pat {
	out := make(Pat, len(p))
	for i, x := range p {
		x.Dir = -x.Dir
		out[len(p)-1-i] = x
	}
	return out
}

// Syms are the values supplied by the caller.
type Syms struct {
	N map[string][]int
	E map[string][]int
}

type match struct {
	nodes []int // node of every path position
	edges []int
	sym   map[string]string
}

func edgeSetStr(l []int) string {
	s := make([]string, len(l))
	for i, x := range l {
		s[i] = fmt.Sprint("e", x)
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// matches is the reference: it enumerates all assignments.
func (m *Model) matches(p Pat, syms *Syms, emit func(nodes, edges []int, sym map[string]string)) {
	if p.twoKinds() {
		return
	}
	var nodes, edges []int
	bound := map[string]string{}
	nodeOK := func(pi *PI, n int) bool {
		if m.N[n].Gone || !hasAll(m.N[n].Labels, pi.L) || !propsMatch(m.N[n].Props, pi.P) {
			return false
		}
		if syms != nil && pi.Name != "" {
			if _, isE := syms.E[pi.Name]; isE {
				return false
			}
			if l, ok := syms.N[pi.Name]; ok && !hasInt(l, n) {
				return false
			}
		}
		return true
	}
	edgeOK := func(pi *PI, e int) bool {
		me := &m.E[e]
		if me.Gone || len(pi.L) > 0 && !hasStr(pi.L, me.Label) || !propsMatch(me.Props, pi.P) {
			return false
		}
		if syms != nil && pi.Name != "" {
			if _, isN := syms.N[pi.Name]; isN {
				return false
			}
			if l, ok := syms.E[pi.Name]; ok && !hasInt(l, e) {
				return false
			}
		}
		return true
	}
	bind := func(name, val string, cont func()) {
		if name == "" {
			cont()
			return
		}
		if old, ok := bound[name]; ok {
			if old == val {
				cont()
			}
			return
		}
		bound[name] = val
		cont()
		delete(bound, name)
	}
	var at func(i, n int)
	at = func(i, n int) { // item i is a node, it must be n
		pi := &p[i]
		if !nodeOK(pi, n) {
			return
		}
		bind(pi.Name, fmt.Sprint("n", n), func() {
			nodes = append(nodes, n)
			if i == len(p)-1 {
				emit(nodes, edges, bound)
			} else {
				ei := &p[i+1]
				if ei.Min == 1 && ei.Max == 1 {
					m.step(n, ei.Dir, func(e, to int) {
						if edgeOK(ei, e) {
							bind(ei.Name, fmt.Sprint("e", e), func() {
								edges = append(edges, e)
								at(i+2, to)
								edges = edges[:len(edges)-1]
							})
						}
					})
				} else {
					m.trails(n, ei, edgeOK, func(es, ns []int) {
						bind(ei.Name, edgeSetStr(es), func() {
							edges = append(edges, es...)
							nodes = append(nodes, ns[:len(ns)-1]...)
							at(i+2, ns[len(ns)-1])
							nodes = nodes[:len(nodes)-len(ns)+1]
							edges = edges[:len(edges)-len(es)]
						})
					})
				}
			}
			nodes = nodes[:len(nodes)-1]
		})
	}
	for n := range m.N {
		at(0, n)
	}
}

// step enumerates the edges that can be followed from n in the direction.
func (m *Model) step(n, dir int, f func(e, to int)) {
	for e := range m.E {
		me := &m.E[e]
		if me.Gone {
			continue
		}
		if dir >= 0 && me.From == n {
			f(e, me.To)
		} else if dir <= 0 && me.To == n {
			f(e, me.From)
		}
	}
}

// trails enumerates the edge sequences of a variable length item from n.
func (m *Model) trails(n int, ei *PI, ok func(pi *PI, e int) bool, f func(es, ns []int)) {
	var es, ns []int
	var rec func(n int)
	rec = func(n int) {
		if len(es) > 0 && (ei.Min == -1 || len(es) >= ei.Min) && (ei.Max == -1 || len(es) <= ei.Max) {
			f(es, ns)
		}
		if ei.Max != -1 && len(es) >= ei.Max {
			return
		}
		m.step(n, ei.Dir, func(e, to int) {
			if hasInt(es, e) || !ok(ei, e) {
				return
			}
			es, ns = append(es, e), append(ns, to)
			rec(to)
			es, ns = es[:len(es)-1], ns[:len(ns)-1]
		})
	}
	rec(n)
}

func hasInt(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func matchStr(nodes, edges []int, sym map[string]string, back bool) string {
	sb := strings.Builder{}
	for k := range nodes {
		i := k
		if back {
			i = len(nodes) - 1 - k
		}
		if k > 0 {
			j := k - 1
			if back {
				j = len(edges) - k
			}
			fmt.Fprintf(&sb, "-e%d-", edges[j])
		}
		fmt.Fprintf(&sb, "n%d", nodes[i])
	}
	ks := make([]string, 0, len(sym))
	for k := range sym {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		sb.WriteString(" " + k + "=" + sym[k])
	}
	return sb.String()
}

func (m *Model) refMatches(p Pat, syms *Syms) []string {
	out, _ := m.refMatchesMax(p, syms, 1<<30)
	return out
}

// refMatchesMax gives up when there are more than max matches.
func (m *Model) refMatchesMax(p Pat, syms *Syms, max int) (out []string, ok bool) {
	ok = m.matchesMax(p, syms, max, func(n, e []int, s map[string]string) {
		out = append(out, matchStr(n, e, s, false))
	})
	sort.Strings(out)
	return out, ok
}

// matchesMax gives up, and returns false, when there are more than max matches.
func (m *Model) matchesMax(p Pat, syms *Syms, max int, emit func(n, e []int, s map[string]string)) (ok bool) {
	type tooMany struct{}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(tooMany); !is {
				panic(r)
			}
			ok = false
		}
	}()
	n := 0
	m.matches(p, syms, func(nodes, edges []int, s map[string]string) {
		if n++; n > max {
			panic(tooMany{})
		}
		emit(nodes, edges, s)
	})
	return true
}

func (s *Syms) lpg(w *World) map[string]*lpg.PatternSymbol {
	if s == nil {
		return nil
	}
	out := map[string]*lpg.PatternSymbol{}
	for k, l := range s.N {
		ps := &lpg.PatternSymbol{}
		for _, i := range l {
			ps.AddNode(w.N[i])
		}
		if len(l) == 0 {
			ps.Nodes = lpg.NewNodeSet()
		}
		out[k] = ps
	}
	for k, l := range s.E {
		ps := &lpg.PatternSymbol{}
		for _, i := range l {
			ps.Add(w.E[i])
		}
		if len(l) == 0 {
			ps.Edges = lpg.NewEdgeSet()
		}
		out[k] = ps
	}
	return out
}

// wrongKind: a supplied node set is used as an edge variable, or the reverse.
func (s *Syms) wrongKind(p Pat) bool {
	if s == nil {
		return false
	}
	for i, x := range p {
		_, isN := s.N[x.Name]
		_, isE := s.E[x.Name]
		if x.Name != "" && (i%2 == 0 && isE || i%2 == 1 && isN) {
			return true
		}
	}
	return false
}

// twoKinds: a name is used for a node and for a relationship.
func (p Pat) twoKinds() bool {
	for i, x := range p {
		for j, y := range p {
			if x.Name != "" && x.Name == y.Name && i%2 == 0 && j%2 == 1 {
				return true
			}
		}
	}
	return false
}

// runPattern returns what the library reports, sorted. heads/tails are checked
// against the paths.
func (w *World) runPattern(p Pat, syms *Syms) ([]string, error) {
	lp := p.lpg()
	ls := syms.lpg(w)
	acc, err := lp.FindPaths(w.G, ls)
	if w.allFinds {
		w.sameFinds(p, lp, ls, acc, err)
	}
	if err != nil {
		return nil, err
	}
	out := make([]string, 0, len(acc.Paths))
	if len(acc.Paths) != len(acc.Symbols) {
		fail("%s: %d paths and %d symbol maps", p, len(acc.Paths), len(acc.Symbols))
	}
	var heads, tails []int
	for i, path := range acc.Paths {
		s := w.pathStr(path)
		w.connected(p, path)
		sym := map[string]string{}
		for k, v := range acc.Symbols[i] {
			sym[k] = w.symStr(v)
		}
		out = append(out, s+matchStr(nil, nil, sym, false))
		heads = append(heads, w.nodeIdx(path.First()))
		tails = append(tails, w.nodeIdx(path.Last()))
	}
	sort.Strings(out)
	w.expect(w.nodeList(acc.GetHeadNodes()), uniq(heads), "%s: head nodes", p)
	w.expect(w.nodeList(acc.GetTailNodes()), uniq(tails), "%s: tail nodes", p)
	return out, nil
}

// sameFinds: Run and FindNodes find what FindPaths found, and fail when it failed.
func (w *World) sameFinds(p Pat, lp lpg.Pattern, ls map[string]*lpg.PatternSymbol, acc lpg.DefaultMatchAccumulator, err error) {
	nodes, err2 := lp.FindNodes(w.G, ls)
	n := 0
	err3 := lp.Run(w.G, ls, &matchAcc{func(*lpg.MatchContext, *lpg.Path, map[string]any) { n++ }})
	if (err == nil) != (err2 == nil) || (err == nil) != (err3 == nil) {
		fail("%s: FindPaths returns the error %v, FindNodes %v, Run %v", p, err, err2, err3)
	}
	if err == nil && n != len(acc.Paths) {
		fail("%s: FindPaths returns %d paths, Run reports %d matches", p, len(acc.Paths), n)
	}
	if err == nil {
		w.expect(w.nodeList(nodes), uniq(w.nodeList(acc.GetHeadNodes())), "%s: FindNodes", p)
	}
}

// connected: every edge of the path joins the nodes before and after it.
func (w *World) connected(p Pat, path *lpg.Path) {
	if path.NumEdges()+1 != path.NumNodes() {
		fail("%s: a path has %d nodes and %d edges", p, path.NumNodes(), path.NumEdges())
	}
	for i := 0; i < path.NumEdges(); i++ {
		e, a, b := path.GetEdge(i), path.GetNode(i), path.GetNode(i+1)
		if !(e.GetFrom() == a && e.GetTo() == b) && !(e.GetFrom() == b && e.GetTo() == a) {
			fail("%s: the reported path is disconnected at edge %d: %s", p, i, w.pathStr(path))
		}
	}
	if path.GetNode(0) != path.First() || path.GetNode(path.NumNodes()-1) != path.Last() {
		fail("%s: first or last node of the path is wrong", p)
	}
}

func (w *World) checkPattern(p Pat, syms *Syms, want []string) {
	got, err := w.runPattern(p, syms)
	if err != nil {
		if len(want) == 0 && (syms.wrongKind(p) || p.twoKinds()) {
			return
		}
		fail("%s: error %v", p, err)
	}
	w.checks++
	w.samePaths(p, got, want)
}

func (w *World) samePaths(p Pat, got, want []string) {
	if sameStrs(got, want) {
		return
	}
	fail("%s: reported %d matches:\n  %s\nexpected %d:\n  %s\nreference:\n%s", p, len(got), clip(strings.Join(got, "\n  "), 1500), len(want), clip(strings.Join(want, "\n  "), 1500), w.M.String())
}
