package harness

import (
	"fmt"
	"strconv"
	"strings"
)

// A reader of the DOT language, written for the harness from its grammar
// (graphviz.org/doc/info/lang.html), for documents without subgraphs.

type dotDoc struct {
	directed bool
	strict   bool
	name     string
	named    bool
	defaults map[string]map[string]string // graph, node, edge
	nodes    map[string]map[string]string
	count    map[string]int
	edges    []dotEdge
}

type dotEdge struct {
	from, to string
	attrs    map[string]string
}

type dotTok struct {
	s  string
	id bool // an ID, quoted or not; otherwise punctuation
	q  bool // quoted
}

func dotIdent(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func dotTokens(s string) ([]dotTok, error) {
	var ts []dotTok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "//") || c == '#':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case strings.HasPrefix(s[i:], "->") || strings.HasPrefix(s[i:], "--"):
			ts = append(ts, dotTok{s: s[i : i+2]})
			i += 2
		case strings.IndexByte("{}[]=;,:", c) >= 0:
			ts = append(ts, dotTok{s: s[i : i+1]})
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unclosed string at byte %d", i)
			}
			v, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("bad string %s: %v", s[i:j+1], err)
			}
			ts = append(ts, dotTok{s: v, id: true, q: true})
			i = j + 1
		case dotIdent(c):
			j := i
			for j < len(s) && (dotIdent(s[j]) || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			ts = append(ts, dotTok{s: s[i:j], id: true})
			i = j
		case c == '-' || c == '.' || c >= '0' && c <= '9':
			j := i
			if s[j] == '-' {
				j++
			}
			digits := 0
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
				digits++
			}
			if j < len(s) && s[j] == '.' {
				j++
				for j < len(s) && s[j] >= '0' && s[j] <= '9' {
					j++
					digits++
				}
			}
			if digits == 0 {
				return nil, fmt.Errorf("bad number at byte %d", i)
			}
			ts = append(ts, dotTok{s: s[i:j], id: true})
			i = j
		default:
			return nil, fmt.Errorf("unexpected %q at byte %d", c, i)
		}
	}
	return ts, nil
}

type dotParser struct {
	ts []dotTok
	i  int
}

func (p *dotParser) peek() dotTok {
	if p.i < len(p.ts) {
		return p.ts[p.i]
	}
	return dotTok{s: "<end>"}
}

func (p *dotParser) next() dotTok { t := p.peek(); p.i++; return t }

func (p *dotParser) punct(s string) bool {
	if t := p.peek(); !t.id && t.s == s {
		p.i++
		return true
	}
	return false
}

func (t dotTok) keyword() string {
	if t.id && !t.q {
		switch k := strings.ToLower(t.s); k {
		case "node", "edge", "graph", "digraph", "subgraph", "strict":
			return k
		}
	}
	return ""
}

func (p *dotParser) ident() (string, error) {
	t := p.next()
	if !t.id || t.keyword() != "" {
		return "", fmt.Errorf("token %d is %q, want an ID", p.i, t.s)
	}
	return t.s, nil
}

func (p *dotParser) attrs(into map[string]string) error {
	for p.punct("[") {
		for !p.punct("]") {
			k, err := p.ident()
			if err != nil {
				return err
			}
			if !p.punct("=") {
				return fmt.Errorf("token %d is %q, want =", p.i, p.peek().s)
			}
			v, err := p.ident()
			if err != nil {
				return err
			}
			if _, ok := into[k]; ok {
				return fmt.Errorf("attribute %q given twice", k)
			}
			into[k] = v
			if !p.punct(";") {
				p.punct(",")
			}
		}
	}
	return nil
}

func parseDOT(s string) (*dotDoc, error) {
	ts, err := dotTokens(s)
	if err != nil {
		return nil, err
	}
	p := &dotParser{ts: ts}
	d := &dotDoc{defaults: map[string]map[string]string{}, nodes: map[string]map[string]string{}, count: map[string]int{}}
	if p.peek().keyword() == "strict" {
		d.strict = true
		p.next()
	}
	switch p.next().keyword() {
	case "graph":
	case "digraph":
		d.directed = true
	default:
		return nil, fmt.Errorf("not a graph")
	}
	if p.peek().id {
		if d.name, err = p.ident(); err != nil {
			return nil, err
		}
		d.named = true
	}
	if !p.punct("{") {
		return nil, fmt.Errorf("token %d is %q, want {", p.i, p.peek().s)
	}
	op := "--"
	if d.directed {
		op = "->"
	}
	for !p.punct("}") {
		if p.punct(";") {
			continue
		}
		if k := p.peek().keyword(); k == "graph" || k == "node" || k == "edge" {
			p.next()
			if d.defaults[k] == nil {
				d.defaults[k] = map[string]string{}
			}
			if err := p.attrs(d.defaults[k]); err != nil {
				return nil, err
			}
			continue
		}
		a, err := p.ident()
		if err != nil {
			return nil, err
		}
		if p.punct("=") { // a graph attribute on its own
			v, err := p.ident()
			if err != nil {
				return nil, err
			}
			if d.defaults["graph"] == nil {
				d.defaults["graph"] = map[string]string{}
			}
			d.defaults["graph"][a] = v
			continue
		}
		if p.punct(op) {
			b, err := p.ident()
			if err != nil {
				return nil, err
			}
			e := dotEdge{a, b, map[string]string{}}
			if err := p.attrs(e.attrs); err != nil {
				return nil, err
			}
			d.edges = append(d.edges, e)
			continue
		}
		if d.nodes[a] == nil {
			d.nodes[a] = map[string]string{}
		}
		d.count[a]++
		if err := p.attrs(d.nodes[a]); err != nil {
			return nil, err
		}
	}
	if p.i != len(p.ts) {
		return nil, fmt.Errorf("text after the closing brace")
	}
	return d, nil
}

// dotIDs maps DOT IDs to UIDs; nil if two nodes share one, or one is written
// the way DOT writes quoted or HTML IDs, which stand for something else.
func (m *gModel) dotIDs() map[string]string {
	ids := map[string]string{}
	for u, n := range m.nodes {
		if _, ok := ids[n.dotid]; ok || dotSyntax(n.dotid) {
			return nil
		}
		ids[n.dotid] = u
	}
	for _, n := range m.nodes {
		for k, v := range n.attrs {
			if dotSyntax(k) || dotSyntax(v) {
				return nil
			}
		}
	}
	for _, e := range m.edges {
		for k, v := range e.attrs {
			if dotSyntax(k) || dotSyntax(v) {
				return nil
			}
		}
	}
	return ids
}

func dotSyntax(s string) bool {
	return len(s) >= 2 && (s[0] == '"' && s[len(s)-1] == '"' || s[0] == '<' && s[len(s)-1] == '>')
}

func checkDOT(text, name string, m *gModel, gattrs, nattrs, eattrs map[string]string) error {
	d, err := parseDOT(text)
	if err != nil {
		return fmt.Errorf("the DOT text does not parse: %v\n%s", err, clip(text, 1500))
	}
	fail := func(f string, a ...any) error {
		return fmt.Errorf("the DOT text %s\n%s", fmt.Sprintf(f, a...), clip(text, 1500))
	}
	if d.directed != m.directed {
		return fail("is of a directed graph: %v, want %v", d.directed, m.directed)
	}
	if d.name != name {
		return fail("is named %q, want %q", d.name, name)
	}
	ids := m.dotIDs()
	for id := range d.nodes {
		if _, ok := ids[id]; !ok {
			return fail("has a node %q, which is not in the graph", id)
		}
		if d.count[id] > 1 {
			return fail("has the node %q twice", id)
		}
	}
	for id, u := range ids {
		a, ok := d.nodes[id]
		if !ok {
			return fail("lacks the node %q", id)
		}
		if !eqMap(a, m.nodes[u].attrs) {
			return fail("gives the node %q the attributes %q, want %q", id, a, m.nodes[u].attrs)
		}
	}
	seen := map[[2]string]bool{}
	for _, e := range d.edges {
		u, ok1 := ids[e.from]
		v, ok2 := ids[e.to]
		if !ok1 || !ok2 {
			return fail("has an edge of the unknown nodes %q and %q", e.from, e.to)
		}
		w := m.edge(u, v)
		if w == nil {
			return fail("has an edge from %q to %q, which is not in the graph", e.from, e.to)
		}
		if k := m.key(u, v); seen[k] {
			return fail("has the edge from %q to %q twice", e.from, e.to)
		} else {
			seen[k] = true
		}
		if !eqMap(e.attrs, w.attrs) {
			return fail("gives the edge from %q to %q the attributes %q, want %q", e.from, e.to, e.attrs, w.attrs)
		}
	}
	if len(seen) != len(m.edges) {
		return fail("has %d edges, want %d", len(seen), len(m.edges))
	}
	for k, want := range map[string]map[string]string{"graph": gattrs, "node": nattrs, "edge": eattrs} {
		if !eqMap(d.defaults[k], want) {
			return fail("has the %s defaults %q, want %q", k, d.defaults[k], want)
		}
	}
	return nil
}
