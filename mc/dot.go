package main

import (
	"fmt"
	"strings"
)

// dotDoc is a parsed DOT digraph: the node statements in order and the edges.
type dotDoc struct {
	name  string
	nodes []dotNode
	edges []dotEdge
}

type dotNode struct {
	id    string
	attrs map[string]string
}

type dotEdge struct {
	from, to string
	attrs    map[string]string
}

type dotTok struct {
	kind byte // 'i' identifier or string, 'p' punctuation, 0 end
	s    string
	q    bool // was quoted
}

type dotParser struct {
	src string
	pos int
	tok dotTok
}

type dotError string

func (p *dotParser) bad(format string, args ...any) {
	panic(dotError(fmt.Sprintf(format, args...) + fmt.Sprintf(" (at byte %d)", p.pos)))
}

func isIDChar(c byte, first bool) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || !first && c >= '0' && c <= '9'
}

func (p *dotParser) next() {
	for p.pos < len(p.src) && strings.IndexByte(" \t\r\n", p.src[p.pos]) >= 0 {
		p.pos++
	}
	if p.pos >= len(p.src) {
		p.tok = dotTok{}
		return
	}
	c := p.src[p.pos]
	switch {
	case c == '"':
		sb := strings.Builder{}
		for p.pos++; ; p.pos++ {
			if p.pos >= len(p.src) {
				p.bad("a string is not closed")
			}
			c := p.src[p.pos]
			if c == '"' {
				p.pos++
				break
			}
			if c == 0 {
				p.bad("a string contains a zero byte")
			}
			if c == '\\' && p.pos+1 < len(p.src) {
				p.pos++
				switch d := p.src[p.pos]; d {
				case '"':
					sb.WriteByte('"')
				case '\n':
				default:
					sb.WriteByte('\\')
					sb.WriteByte(d)
				}
				continue
			}
			sb.WriteByte(c)
		}
		p.tok = dotTok{'i', sb.String(), true}
	case isIDChar(c, true):
		s := p.pos
		for p.pos < len(p.src) && isIDChar(p.src[p.pos], false) {
			p.pos++
		}
		p.tok = dotTok{'i', p.src[s:p.pos], false}
	case c >= '0' && c <= '9' || c == '.' || c == '-' && p.pos+1 < len(p.src) && p.src[p.pos+1] != '>':
		s := p.pos
		for p.pos++; p.pos < len(p.src) && (p.src[p.pos] >= '0' && p.src[p.pos] <= '9' || p.src[p.pos] == '.'); {
			p.pos++
		}
		p.tok = dotTok{'i', p.src[s:p.pos], false}
	case strings.HasPrefix(p.src[p.pos:], "->"):
		p.pos += 2
		p.tok = dotTok{'p', "->", false}
	case strings.IndexByte("{}[];=,", c) >= 0:
		p.pos++
		p.tok = dotTok{'p', string(c), false}
	default:
		p.bad("unexpected character %q", c)
	}
}

func (p *dotParser) is(s string) bool { return p.tok.kind == 'p' && p.tok.s == s }

func (p *dotParser) id() string {
	if p.tok.kind != 'i' {
		p.bad("expected an identifier, found %q", p.tok.s)
	}
	if !p.tok.q {
		for _, kw := range []string{"graph", "digraph", "subgraph", "node", "edge", "strict"} {
			if strings.EqualFold(p.tok.s, kw) {
				p.bad("unexpected keyword %s", kw)
			}
		}
	}
	s := p.tok.s
	p.next()
	return s
}

func (p *dotParser) attrs() map[string]string {
	out := map[string]string{}
	for p.is("[") {
		p.next()
		for !p.is("]") {
			k := p.id()
			if !p.is("=") {
				p.bad("expected =")
			}
			p.next()
			if _, dup := out[k]; dup {
				p.bad("attribute %q is given twice", k)
			}
			out[k] = p.id()
			if p.is(",") || p.is(";") {
				p.next()
			}
		}
		p.next()
	}
	return out
}

// parseDOT parses the part of the DOT language that has plain statements.
func parseDOT(src string) (doc *dotDoc, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(dotError)
			if !ok {
				panic(r)
			}
			doc, err = nil, fmt.Errorf("%s", string(e))
		}
	}()
	p := &dotParser{src: src}
	doc = &dotDoc{}
	p.next()
	if !strings.EqualFold(p.tok.s, "digraph") || p.tok.q {
		p.bad("expected digraph, found %q", p.tok.s)
	}
	p.next()
	if p.tok.kind == 'i' {
		doc.name = p.id()
	}
	if !p.is("{") {
		p.bad("expected {, found %q", p.tok.s)
	}
	p.next()
	for !p.is("}") {
		if p.is(";") {
			p.next()
			continue
		}
		if p.tok.kind == 'i' && !p.tok.q && (p.tok.s == "graph" || p.tok.s == "node" || p.tok.s == "edge") {
			p.next()
			p.attrs()
			continue
		}
		id := p.id()
		switch {
		case p.is("="):
			p.next()
			p.id()
		case p.is("->"):
			ids := []string{id}
			for p.is("->") {
				p.next()
				ids = append(ids, p.id())
			}
			a := p.attrs()
			for i := 1; i < len(ids); i++ {
				doc.edges = append(doc.edges, dotEdge{ids[i-1], ids[i], a})
			}
		default:
			doc.nodes = append(doc.nodes, dotNode{id, p.attrs()})
		}
	}
	p.next()
	if p.tok.kind != 0 {
		p.bad("there is more after the graph: %q", p.tok.s)
	}
	return doc, nil
}

// dotLabel interprets the escapes of a label.
func dotLabel(s string) string {
	sb := strings.Builder{}
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case '\\':
				sb.WriteByte('\\')
			case 'n', 'l', 'r':
				sb.WriteByte('\n')
			default:
				sb.WriteString("<escape " + string(s[i]) + ">")
			}
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// dotSG checks that a document lists every node and edge properly and returns
// the graph it shows; val makes the node contents from its attributes.
func dotSG(src string, val func(attrs map[string]string) string) *SG {
	doc, err := parseDOT(src)
	if err != nil {
		fail("the rendered document is not well-formed DOT: %v\n%s", err, src)
	}
	s := &SG{}
	ix := map[string]int{}
	for _, n := range doc.nodes {
		if _, dup := ix[n.id]; dup {
			fail("node identifier %s is listed twice\n%s", n.id, src)
		}
		ix[n.id] = len(s.N)
		s.N = append(s.N, val(n.attrs))
	}
	for _, e := range doc.edges {
		f, ok1 := ix[e.from]
		t, ok2 := ix[e.to]
		if !ok1 || !ok2 {
			fail("the edge %s -> %s names a node that is not listed\n%s", e.from, e.to, src)
		}
		l, has := e.attrs["label"]
		str := "no label"
		if has {
			str = fmt.Sprintf("label %q", dotLabel(l))
		}
		s.E = append(s.E, SE{f, t, str})
	}
	return s
}
