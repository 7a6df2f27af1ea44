package harness

import (
	"errors"
	"fmt"
	"regexp"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	"github.com/milosgajdos/netscrape/pkg/graph"
	"gonum.org/v1/gonum/graph/encoding"
	"pgregory.net/rapid"
)

func init() {
	register("G04",
		Part("families", 2500, 50000, "histories over a family of graphs: subgraphs of any depth are taken at any point, from the graph or from a subgraph, and graph and subgraphs are changed afterwards (nodes, links, link attributes, upserts); after each operation every graph of the family is compared with a model of its own; non-trivial: a subgraph with a link was taken and a member of the family changed afterwards", genFamily, runFamily),
		Part("shapes", 2000, 40000, "graphs of 1 to 40 nodes (tail: 300) with random, chain, cycle, tree, star, grid or complete links, with cycles and several paths of different lengths; the subgraphs of up to 8 roots at every depth up to the eccentricity and one more are compared with the model; non-trivial: some subgraph has a link and lacks one", genShape, runShape))
	register("G05", Part("exports", 2500, 50000, "histories over a graph with DOT options (ID, graph, node and edge defaults, each given or not), nodes and links with attributes and DOT IDs of special texts, DOT IDs changed later; the graph is exported twice at any points and after the last operation, each text parsed by a reader of the DOT grammar and compared with the model, and every query is compared after each operation; non-trivial: an export with a link and an attribute or default was compared", genDOT, runDOT))
}

// FCase is a history of a family of graphs; each operation names its target.
type FCase struct {
	GCase
	T []int `json:"t"`
}

func genFamily(t *rapid.T) FCase {
	c := FCase{GCase: GCase{Directed: rapid.Bool().Draw(t, "directed"), UIDs: drawUIDs(t, 2, 6)}}
	type top struct {
		o GOp
		t int
	}
	kinds := []string{"add", "add", "add", "link", "link", "link", "link", "link", "sub", "sub", "edgeattr", "edgeattr", "unlink", "remove", "upsert"}
	ops := drawList(t, "ops", 0, 40, func(t *rapid.T) top {
		o := drawGOp(t, kinds)
		switch o.Op {
		case "sub":
			o.N = rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 4, 9}).Draw(t, "depth")
			if rapid.IntRange(0, 2).Draw(t, "dot?") == 0 {
				o.DOT = drawStr(t, "dot")
			}
			if rapid.IntRange(0, 2).Draw(t, "guid?") == 0 {
				o.EUID = drawStr(t, "guid")
			}
		case "edgeattr":
			o.Attrs = map[string]string{drawStr(t, "k"): drawStr(t, "v")}
		}
		return top{o, rapid.IntRange(0, 3).Draw(t, "target")}
	})
	for _, o := range drawStart(t, len(c.UIDs)) {
		c.Ops, c.T = append(c.Ops, o), append(c.T, 0)
	}
	if len(c.Ops) > len(c.UIDs) && pct(t, 70, "sub?") { // where there are links
		o := c.Ops[len(c.UIDs)]
		o.Op, o.N = "sub", rapid.IntRange(1, 4).Draw(t, "depth")
		o.W, o.DOT, o.EUID, o.Attrs = nil, "", "", nil
		c.Ops, c.T = append(c.Ops, o), append(c.T, 0)
	}
	for _, o := range ops {
		c.Ops, c.T = append(c.Ops, o.o), append(c.T, o.t)
	}
	return c
}

var reDOTKind = regexp.MustCompile(`(?i)^\s*(?:strict\s+)?(di)?graph\b`)

func subGraph(g Graph, directed bool, u string, kind, depth int, opts ...graph.Option) (Graph, error) {
	sub, err := g.SubGraph(bg, mkUID(u, kind), depth, opts...)
	if err != nil {
		return nil, err
	}
	sg, ok := sub.(Graph)
	if !ok {
		return nil, fmt.Errorf("the subgraph, a %T, lacks operations of the graph", sub)
	}
	text, err := sg.DOT()
	if err != nil {
		return nil, fmt.Errorf("DOT of the subgraph: %v", err)
	}
	if m := reDOTKind.FindStringSubmatch(text); m == nil || (m[1] != "") != directed {
		return nil, fmt.Errorf("the graph is directed: %v; its subgraph is not of that kind: %s", directed, clip(text, 60))
	}
	return sg, nil
}

// learn takes over the UIDs of edges the model does not know.
func (m *gModel) learn(g Graph) error {
	es, err := g.Edges(bg)
	if err != nil {
		return err
	}
	for _, e := range es {
		f, _ := e.FromNode()
		t, _ := e.ToNode()
		w := m.edge(uidStr(f.UID()), uidStr(t.UID()))
		w.uid, w.dotid = uidStr(e.UID()), e.(interface{ DOTID() string }).DOTID()
	}
	return nil
}

func runFamily(c FCase, r *R) error {
	fam := []*gSys{{g: newGraph(c.Directed), m: newModel(c.Directed), c: c.GCase, uids: c.UIDs}}
	graphUIDs := map[string]bool{uidStr(fam[0].g.UID()): true}
	linked, changed := false, false
	for i, o := range c.Ops {
		s := fam[c.T[i]%len(fam)]
		u, v := s.uid(o.U), s.uid(o.V)
		what := fmt.Sprintf("op %d (%s %q %q on graph %d)", i, o.Op, u, v, c.T[i]%len(fam))
		switch o.Op {
		case "sub":
			var opts []graph.Option
			if o.DOT != "" {
				opts = append(opts, graph.WithDOTID(o.DOT))
			}
			if o.EUID != "" {
				opts = append(opts, graph.WithUID(mkUID(o.EUID, o.UK)))
			}
			sg, err := subGraph(s.g, c.Directed, u, o.UK, o.N, opts...)
			if s.m.nodes[u] == nil {
				if !errors.Is(err, graph.ErrNodeNotFound) {
					return fmt.Errorf("%s: subgraph of an unknown root: error %v; want the not-found error", what, err)
				}
				r.Label("unknown root")
				break
			}
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if o.EUID != "" && uidStr(sg.UID()) != o.EUID {
				return fmt.Errorf("%s: the subgraph's UID is %q, want %q", what, uidStr(sg.UID()), o.EUID)
			}
			if o.DOT != "" && sg.DOTID() != o.DOT {
				return fmt.Errorf("%s: the subgraph's DOT ID is %q, want %q", what, sg.DOTID(), o.DOT)
			}
			if o.EUID == "" {
				if x := uidStr(sg.UID()); x == "" || graphUIDs[x] {
					return fmt.Errorf("%s: the subgraph's UID, %q, is not its own", what, x)
				}
			}
			graphUIDs[uidStr(sg.UID())] = true
			if o.DOT == "" && sg.DOTID() != uidStr(sg.UID()) {
				return fmt.Errorf("%s: the subgraph's DOT ID is %q; none was given and its UID is %q", what, sg.DOTID(), uidStr(sg.UID()))
			}
			m := s.m.induced(u, o.N)
			if err := checkGraph(sg, m, c.UIDs, anyUID); err != nil {
				return fmt.Errorf("%s: subgraph of depth %d: %v", what, o.N, err)
			}
			if err := m.learn(sg); err != nil {
				return err
			}
			linked = linked || len(m.edges) > 0
			if len(fam) < 4 {
				fam = append(fam, &gSys{g: sg, m: m, c: c.GCase, uids: c.UIDs, ver: 1000 * len(fam)})
			}
		case "edgeattr":
			if len(s.m.edges) == 0 {
				break
			}
			e := s.m.nthEdge(o.U*7 + o.V)
			u, v := e.from, e.to
			ge, err := s.g.Edge(bg, mkUID(u, o.UK), mkUID(v, o.UK))
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			for k, x := range o.Attrs {
				if err := ge.Attrs().Set(bg, k, x); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				e.attrs[k] = x
			}
			changed = changed || linked
			r.LabelIf(linked, "link attribute set afterwards")
		default:
			if err := s.apply(o); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			changed = changed || linked
		}
		for j, f := range fam {
			if err := checkGraph(f.g, f.m, c.UIDs, 0); err != nil {
				return fmt.Errorf("after %s: graph %d: %v", what, j, err)
			}
		}
	}
	r.LabelIf(c.Directed, "directed")
	r.LabelIf(len(fam) > 2, "several subgraphs")
	if linked && changed {
		r.NonTrivial()
	}
	return nil
}

// SCase is a graph of a shape.
type SCase struct {
	Directed bool     `json:"directed"`
	N        int      `json:"n"`
	Links    [][2]int `json:"links"`
	Roots    []int    `json:"roots"`
	Order    int      `json:"order"`
}

func genShape(t *rapid.T) SCase {
	n := rapid.IntRange(1, 12).Draw(t, "n")
	if rapid.IntRange(0, 3).Draw(t, "big?") == 0 {
		n = rapid.IntRange(1, 40).Draw(t, "N")
	}
	big := pct(t, 3, "huge?")
	if big {
		n = pick(t, "huge", near(300, 66, 130, 200))
	}
	n = max(n, 1)
	c := SCase{Directed: rapid.Bool().Draw(t, "directed"), N: n, Order: rapid.IntRange(0, 5).Draw(t, "order")}
	add := func(i, j int) {
		if i != j && i < n && j < n {
			c.Links = append(c.Links, [2]int{i, j})
		}
	}
	shapes := []string{"none", "chain", "cycle", "tree", "grid", "complete", "star"}
	if big { // not those of many depths
		shapes = []string{"tree", "tree", "star", "complete"}
	}
	shape := rapid.SampledFrom(shapes).Draw(t, "shape")
	for i := 0; i < n; i++ {
		switch shape {
		case "chain":
			add(i, i+1)
		case "cycle":
			add(i, (i+1)%n)
		case "tree":
			add(i, 2*i+1)
			add(i, 2*i+2)
		case "grid":
			if i%4 != 3 {
				add(i, i+1)
			}
			add(i, i+4)
		case "star":
			add(0, i)
			add(i, n-1)
		case "complete":
			for j := 0; j < n && n < 12; j++ {
				add(i, j)
			}
		}
	}
	extra := drawList(t, "extra", 0, 2*n, func(t *rapid.T) [2]int {
		return [2]int{rapid.IntRange(0, n-1).Draw(t, "i"), rapid.IntRange(0, n-1).Draw(t, "j")}
	})
	for _, e := range extra {
		add(e[0], e[1])
	}
	if big {
		c.Roots = []int{0}
	} else {
		c.Roots = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 8).Draw(t, "roots")
	}
	return c
}

func runShape(c SCase, r *R) error {
	s := &gSys{g: newGraph(c.Directed), m: newModel(c.Directed), c: GCase{UIDs: []string{"x"}}}
	var uids []string
	for i := 0; i < c.N; i++ {
		uids = append(uids, fmt.Sprintf("n%d", (i*7+c.Order)%1000))
	}
	for _, u := range uids {
		p, err := s.create(GOp{UK: c.Order}, u)
		if err != nil {
			return err
		}
		if err := s.add(p, false); err != nil {
			return err
		}
	}
	for i, l := range c.Links {
		if l[0] == l[1] || l[0] >= c.N || l[1] >= c.N {
			continue
		}
		w := drawnWeight(i)
		o := GOp{UK: i, W: &w, Attrs: map[string]string{"relation": fmt.Sprint(i)}}
		if err := s.link(o, uids[l[0]], uids[l[1]]); err != nil {
			return err
		}
	}
	for _, root := range c.Roots {
		u := uids[root%c.N]
		prev := -1
		for d := 0; d <= c.N+1; d++ {
			m := s.m.induced(u, d)
			sg, err := subGraph(s.g, c.Directed, u, d, d)
			if err != nil {
				return fmt.Errorf("subgraph of %q, depth %d: %v", u, d, err)
			}
			if err := checkGraph(sg, m, uids, anyUID); err != nil {
				return fmt.Errorf("subgraph of %q, depth %d: %v", u, d, err)
			}
			if len(m.edges) > 0 && len(m.edges) < len(s.m.edges) {
				r.NonTrivial()
			}
			if len(m.nodes) == prev {
				break
			}
			prev = len(m.nodes)
		}
	}
	if err := checkGraph(s.g, s.m, uids, 0); err != nil {
		return fmt.Errorf("after taking subgraphs: %v", err)
	}
	r.LabelIf(c.Directed, "directed")
	r.LabelIf(c.N > 12, "over 12 nodes")
	return nil
}

func drawnWeight(i int) W {
	return wOf(float64(i) + 0.25)
}

// DCase is a history of a graph that is exported.
type DCase struct {
	GCase
	UID    string             `json:"uid"`
	DOT    string             `json:"gdot"`
	GAttrs *map[string]string `json:"gattrs"`
	NAttrs *map[string]string `json:"nattrs"`
	EAttrs *map[string]string `json:"eattrs"`
	Given  bool               `json:"given"`
}

func genDOT(t *rapid.T) DCase {
	c := DCase{GCase: GCase{Directed: rapid.Bool().Draw(t, "directed"), UIDs: drawUIDs(t, 2, 6)}}
	if rapid.Bool().Draw(t, "uid?") {
		c.UID = drawStr(t, "guid")
	}
	if rapid.Bool().Draw(t, "dot?") {
		c.DOT = drawStr(t, "gdot")
	}
	opt := func(l string) *map[string]string {
		if rapid.Bool().Draw(t, l+"?") {
			m := drawMap(t, l)
			return &m
		}
		return nil
	}
	if rapid.IntRange(0, 3).Draw(t, "options?") > 0 {
		c.Given = true
		c.GAttrs, c.NAttrs, c.EAttrs = opt("gattrs"), opt("nattrs"), opt("eattrs")
	}
	kinds := []string{"add", "add", "add", "add", "link", "link", "link", "link", "link", "link", "export", "export", "setdot", "nodeattr", "unlink", "remove", "upsert"}
	c.Ops = drawList(t, "ops", 0, 32, func(t *rapid.T) GOp {
		o := drawGOp(t, kinds)
		switch o.Op {
		case "setdot":
			o.DOT = drawStr(t, "dot")
		case "nodeattr":
			o.Attrs = map[string]string{drawStr(t, "k"): drawStr(t, "v")}
		}
		return o
	})
	c.Ops = append(drawStart(t, len(c.UIDs)), c.Ops...)
	return c
}

// dotAttrs are DOT attributes of the harness's own.
type dotAttrs map[string]string

func (a dotAttrs) Attributes() []encoding.Attribute {
	var as []encoding.Attribute
	for _, k := range sortedKeys(a) {
		as = append(as, encoding.Attribute{Key: k, Value: a[k]})
	}
	return as
}

func runDOT(c DCase, r *R) error {
	var opts []graph.Option
	if c.UID != "" {
		opts = append(opts, graph.WithUID(mkUID(c.UID, len(c.Ops))))
	}
	if c.DOT != "" {
		opts = append(opts, graph.WithDOTID(c.DOT))
	}
	wants := [3]map[string]string{{}, {}, {}}
	if c.Given {
		var do graph.DOTOptions
		for i, m := range []*map[string]string{c.GAttrs, c.NAttrs, c.EAttrs} {
			if m == nil {
				continue
			}
			wants[i] = *m
			var a attrs.DOT = dotAttrs(*m)
			if x, ok := mkAttrs(*m, i).(attrs.DOT); ok && len(c.Ops)%2 == 0 {
				a = x
			}
			switch i {
			case 0:
				do.GraphAttrs = a
			case 1:
				do.NodeAttrs = a
			default:
				do.EdgeAttrs = a
			}
		}
		opts = append(opts, graph.WithDOTOptions(do))
	}
	s := &gSys{g: newGraph(c.Directed, opts...), m: newModel(c.Directed), c: c.GCase, uids: c.UIDs}
	name := c.DOT
	if name == "" {
		name = c.UID
	}
	if name == "" {
		name = uidStr(s.g.UID())
	}
	if s.g.DOTID() != name {
		return fmt.Errorf("the graph's DOT ID is %q, want %q", s.g.DOTID(), name)
	}
	if c.UID != "" && uidStr(s.g.UID()) != c.UID {
		return fmt.Errorf("the graph's UID is %q, want %q", uidStr(s.g.UID()), c.UID)
	}
	plainDefaults := !dotSyntax(name)
	for _, m := range wants {
		for k, v := range m {
			plainDefaults = plainDefaults && !dotSyntax(k) && !dotSyntax(v)
		}
	}
	export := func() error {
		for n := 0; n < 2; n++ {
			text, err := s.g.DOT()
			if err != nil {
				return fmt.Errorf("DOT: %v", err)
			}
			if s.m.dotIDs() == nil || !plainDefaults {
				r.Label("DOT IDs shared or in DOT's quotes: only exported")
				continue
			}
			if err := checkDOT(text, name, s.m, wants[0], wants[1], wants[2]); err != nil {
				return err
			}
			attrs := len(wants[0])+len(wants[1])+len(wants[2]) > 0
			for _, n := range s.m.nodes {
				attrs = attrs || len(n.attrs) > 0
			}
			if len(s.m.edges) > 0 && attrs {
				r.NonTrivial()
			}
		}
		return nil
	}
	exported := false
	for i, o := range append(c.Ops[:len(c.Ops):len(c.Ops)], GOp{Op: "export"}) {
		u := s.uid(o.U)
		switch o.Op {
		case "export":
			if err := export(); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			exported = true
		case "setdot", "nodeattr":
			w := s.m.nodes[u]
			if w == nil {
				break
			}
			n, err := s.g.Node(bg, mkUID(u, o.UK))
			if err != nil {
				return fmt.Errorf("op %d: node %q: %v", i, u, err)
			}
			if o.Op == "setdot" {
				d, ok := n.(interface{ SetDOTID(string) })
				if !ok {
					return fmt.Errorf("op %d: the node has no SetDOTID", i)
				}
				d.SetDOTID(o.DOT)
				w.dotid = o.DOT
			} else {
				for k, v := range o.Attrs {
					if err := n.Attrs().Set(bg, k, v); err != nil {
						return err
					}
					w.attrs[k] = v
				}
			}
		default:
			if err := s.apply(o); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			r.LabelIf(exported, "operations after an export")
		}
		if err := checkGraph(s.g, s.m, s.uids, 0); err != nil {
			return fmt.Errorf("after op %d (%s): %v", i, o.Op, err)
		}
	}
	r.LabelIf(c.Directed, "directed")
	r.LabelIf(c.Given, "DOT options given")
	return nil
}
