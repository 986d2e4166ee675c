# Specifications of planted bugs, ninth batch: names taken for one another (see seedlib.py)
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, decls='', race=False):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, decls=decls, race=race))

S('c01-relabel-case', 'C01', 'an edge relabeled to a label that differs in case only',
  'the edge keeps its label',
  [('edge.go', '''	"encoding/json"
	"fmt"
''', '''	"encoding/json"
	"fmt"
	"strings"
'''), ('edge.go', '''	if label != edge.label {
''', '''	if !strings.EqualFold(label, edge.label) {
''')],
  '''g := lpg.NewGraph()
	a := g.NewNode(nil, nil)
	e := g.NewEdge(a, a, "isPartOf", nil)
	e.SetLabel("ispartof")
	if e.GetLabel() != "ispartof" {
		t.Fatal(e.GetLabel())
	}''')

S('c02-single-spaces', 'C02', 'a node with a single edge, asked for edges whose label has other white space around it',
  'the edge is listed',
  [('edgemap.go', '''	"container/list"
''', '''	"container/list"
	"strings"
'''), ('edgemap.go', '''	if em.n == 1 && label == em.only.label {
''', '''	if em.n == 1 && strings.TrimSpace(label) == strings.TrimSpace(em.only.label) {
''')],
  '''g := lpg.NewGraph()
	a, b := g.NewNode(nil, nil), g.NewNode(nil, nil)
	g.NewEdge(a, b, "x ", nil)
	if n := len(lpg.EdgeSlice(a.GetEdgesWithLabel(lpg.OutgoingEdge, "x"))); n != 0 {
		t.Fatal(n)
	}''')

S('c05-index-of-other-key', 'C05', 'an indexed key, and a query for a key that differs from it in white space at the end',
  'the query finds elements by the other key, and misses those with the key',
  [('indexes.go', '''	index, found := g.nodeProperties[key]
	if !found {
		return nil
	}
	itr := index.find(value)
''', '''	index, found := g.nodeProperties[key]
	if !found {
		// Keys read from text may have a line end
		if index, found = g.nodeProperties[trimKey(key)]; !found {
			return nil
		}
	}
	itr := index.find(value)
'''), ('indexes.go', '''func newGraphIndex() graphIndex {
''', '''func trimKey(key string) string {
	for len(key) > 1 && key[len(key)-1] <= ' ' {
		key = key[:len(key)-1]
	}
	return key
}

func newGraphIndex() graphIndex {
''')],
  '''g := lpg.NewGraph()
	g.AddNodePropertyIndex("p", lpg.HashIndex)
	for i := 0; i < 3; i++ {
		g.NewNode(nil, map[string]any{"p": "u", "p ": "v"})
	}
	if n := len(lpg.NodeSlice(g.FindNodes(lpg.StringSet{}, map[string]any{"p ": "v"}))); n != 3 {
		t.Fatal(n)
	}''')

S('c16-label-trimmed', 'C16', 'a node label that ends in white space',
  'the decoded node has another label',
  [('json.go', '''		node.Labels[i] = j.Interner.Intern(node.Labels[i])
''', '''		label := node.Labels[i]
		for len(label) > 1 && label[len(label)-1] == ' ' {
			label = label[:len(label)-1]
		}
		node.Labels[i] = j.Interner.Intern(label)
''')],
  '''g := lpg.NewGraph()
	g.NewNode([]string{"A ", "A"}, nil)
	b := &bytes.Buffer{}
	if err := (lpg.JSON{}).Encode(g, b); err != nil {
		t.Fatal(err)
	}
	h := lpg.NewGraph()
	if err := (lpg.JSON{}).Decode(h, json.NewDecoder(b)); err != nil {
		t.Fatal(err)
	}
	if n := len(lpg.NodeSlice(h.GetNodesWithAllLabels(lpg.NewStringSet("A ")))); n != 1 {
		t.Fatal(n)
	}''')

S('c03-long-labels', 'C03', 'two node labels of more than 64 characters with the same beginning',
  'a lookup of several labels takes one for the other',
  [('stringset.go', '''	for x := range s.M {
		if _, ok := set.M[x]; !ok {
			return false
		}
	}
''', '''	for x := range s.M {
		if _, ok := set.M[x]; !ok {
			if len(x) > 64 && set.hasPrefix(x[:64]) {
				continue
			}
			return false
		}
	}
'''), ('stringset.go', '''func (set StringSet) HasAny(s ...string) bool {
''', '''// hasPrefix is true if an element starts with the prefix
func (set StringSet) hasPrefix(prefix string) bool {
	for x := range set.M {
		if strings.HasPrefix(x, prefix) {
			return true
		}
	}
	return false
}

func (set StringSet) HasAny(s ...string) bool {
''')],
  '''l := ""
	for len(l) < 64 {
		l += "http://"
	}
	g := lpg.NewGraph()
	g.NewNode([]string{l + "a", "A"}, nil)
	g.NewNode([]string{l + "b"}, nil)
	g.NewNode([]string{l + "b"}, nil)
	if n := len(lpg.NodeSlice(g.GetNodesWithAllLabels(lpg.NewStringSet(l+"b", "A")))); n != 0 {
		t.Fatal(n)
	}''')
