package harness

import (
	"errors"
	"fmt"
	"slices"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"pgregory.net/rapid"
)

func init() {
	const hist = "histories of up to 40 operations (tails: 160 operations, graphs grown to 300 nodes) on a directed or undirected graph with two to seven UIDs (special and colliding texts, a new UID object of one of four types each time); after each operation every query is compared with the model"
	register("G01", Part("histories", 3000, 60000, hist+"; non-trivial: a link was made, and a node with links was removed or a link removed or made again", genHist("add", "add", "add", "add", "link", "link", "link", "link", "link", "remove", "unlink", "selflink", "addforeign", "grow", "edgeattr", "edgedot", "nodeattr", "nodedot"), runHist(func(s *gStats) bool { return s.links > 0 && (s.removedLinked > 0 || s.unlinked > 0 || s.relinks > 0) })))
	register("G02", Part("upserts", 3000, 60000, hist+", DOT and subgraphs included; duplicate adds and upserts of new nodes, of nodes made earlier and of nodes with numeric IDs of the caller's; non-trivial: an upsert replaced a node that has links", genHist("add", "add", "upsert", "upsert", "upsert", "new", "addpending", "upsertpending", "raw", "rawupsert", "link", "link", "link", "link", "remove", "unlink", "views", "grow", "edgeattr", "edgedot", "nodeattr", "nodedot"), runHist(func(s *gStats) bool { return s.upsertLinked > 0 })))
	register("G03", Part("interleaved creation", 3000, 60000, hist+"; nodes are created, some added later, some never, next to nodes with numeric IDs of the caller's that often collide; non-trivial: two nodes were created before either was added, or a numeric ID collided", genHist("new", "new", "new", "new", "newmany", "addpending", "addpending", "addpending", "addpending", "upsertpending", "raw", "raw", "add", "upsert", "link", "link", "remove", "remove"), runHist(func(s *gStats) bool { return s.pendings > 0 || s.collisions > 0 })))
}

// GCase is a history of one graph.
type GCase struct {
	Directed bool     `json:"directed"`
	UIDs     []string `json:"uids"`
	Ops      []GOp    `json:"ops"`
}

// GOp is one operation; U and V index UIDs.
type GOp struct {
	Op    string            `json:"op"`
	U     int               `json:"u"`
	V     int               `json:"v,omitempty"`
	UK    int               `json:"uk,omitempty"` // which kind of UID object
	ID    int64             `json:"id,omitempty"`
	Attrs map[string]string `json:"attrs,omitempty"`
	DOT   string            `json:"dot,omitempty"`
	EUID  string            `json:"euid,omitempty"`
	W     *W                `json:"w,omitempty"`
	N     int               `json:"n,omitempty"`
}

func drawUIDs(t *rapid.T, lo, hi int) []string {
	if lo <= 2 && hi >= 3 && pct(t, 8, "joined?") {
		// pairs of these are easily taken for one another when joined to a key
		x := rapid.StringMatching(`[ab]`).Draw(t, "x")
		sep := pick(t, "sep", []string{"", "/", ":", "|", ",", ";", "-", "->", "--", "_", ".", "#", "@", "=", "~", "+", "::", " ", "\t", "\n", "\x00", "\x1f", "\x1e", "\u00a0", "\ufeff", "\U0010ffff"})
		uids := []string{x, x + sep + x}
		for _, u := range []string{x + sep + x + sep + x, sep + x, x + sep, sep, x + sep + "b"} {
			if len(uids) < hi && !slices.Contains(uids, u) {
				uids = append(uids, u)
			}
		}
		return uids
	}
	return rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) string { return drawStr(t, "uid") }), lo, hi, rapid.ID[string]).Draw(t, "uids")
}

func drawGOp(t *rapid.T, kinds []string) GOp {
	o := GOp{Op: rapid.SampledFrom(kinds).Draw(t, "op"), U: rapid.IntRange(0, 6).Draw(t, "u"), V: rapid.IntRange(0, 6).Draw(t, "v"), UK: rapid.IntRange(0, 7).Draw(t, "uk")}
	switch o.Op {
	case "add", "upsert", "new", "raw", "rawupsert":
		if rapid.IntRange(0, 3).Draw(t, "attrs?") == 0 {
			o.Attrs = drawMap(t, "attrs")
		}
		o.ID = rapid.SampledFrom([]int64{0, 0, 1, 1, 2, 3, 4, 5, 6, 7, -1, 1 << 40, 1<<63 - 1, -1 << 63}).Draw(t, "id")
		if rapid.IntRange(0, 5).Draw(t, "dot?") == 0 {
			o.DOT = drawStr(t, "dot")
		}
	case "link":
		if rapid.Bool().Draw(t, "attrs?") {
			o.Attrs = drawMap(t, "attrs")
		}
		if rapid.Bool().Draw(t, "w?") {
			w := drawWeight(t, "w")
			o.W = &w
		}
		if rapid.IntRange(0, 2).Draw(t, "euid?") == 0 {
			o.EUID = drawStr(t, "euid")
		}
		if rapid.IntRange(0, 5).Draw(t, "dot?") == 0 {
			o.DOT = drawStr(t, "dot")
		}
	case "edgeattr", "nodeattr":
		o.Attrs = map[string]string{drawStr(t, "k"): drawStr(t, "v")}
	case "edgedot", "nodedot":
		o.DOT = drawStr(t, "dot")
	case "newmany":
		o.N = pick(t, "n", near(3000, 1, 9, 33, 101, 129, 257, 300, 1025))
		if uni(t, 200, "very?") == 199 {
			o.N = 66000
		}
	case "grow":
		o.N = pick(t, "n", near(3000, 1, 2, 5, 9, 17, 33, 65, 101, 129, 257, 300))
	case "views":
		o.N = rapid.IntRange(0, 4).Draw(t, "n")
	}
	return o
}

// drawStart draws the start of a history: nothing, or adds of the UIDs and
// some links between them.
func drawStart(t *rapid.T, uids int) []GOp {
	if rapid.Bool().Draw(t, "empty?") {
		return nil
	}
	var ops []GOp
	for i := 0; i < uids; i++ {
		o := drawGOp(t, []string{"add"})
		o.U = i
		ops = append(ops, o)
	}
	return append(ops, drawList(t, "links", 0, 2*uids, func(t *rapid.T) GOp { return drawGOp(t, []string{"link"}) })...)
}

func genHist(kinds ...string) func(*rapid.T) GCase {
	return func(t *rapid.T) GCase {
		c := GCase{Directed: rapid.Bool().Draw(t, "directed"), UIDs: drawUIDs(t, 2, 7)}
		grown := false
		c.Ops = append(drawStart(t, len(c.UIDs)), drawList(t, "ops", 0, histLen(t, 40), func(t *rapid.T) GOp { return drawGOp(t, kinds) })...)
		for i := range c.Ops { // at most one growth, and a rare one
			if c.Ops[i].Op == "grow" {
				if grown || c.Ops[i].UK > 0 {
					c.Ops[i].N = 1
				}
				grown = grown || c.Ops[i].N > 1
			}
		}
		return c
	}
}

type gStats struct {
	links, unlinked, relinks, removedLinked, upsertLinked, pendings, collisions, dups int
}

// gSys is a graph with its model.
type gSys struct {
	g    Graph
	m    *gModel
	c    GCase
	ver  int
	st   gStats
	uids []string
	pend []*pending
	// made are the nodes the graph created, by numeric ID
	made map[int64]*gNode
}

// rot gives options in another order.
func rot[T any](opts []T, k int) []T {
	if len(opts) == 0 {
		return opts
	}
	k %= len(opts)
	return append(append([]T{}, opts[k:]...), opts[:k]...)
}

type pending struct {
	node graph.Node
	want *gNode
}

func (s *gSys) uid(i int) string { return s.c.UIDs[i%len(s.c.UIDs)] }

// mkWant makes the model's node for an operation: every one has a mark in its
// entity of its own, so that two nodes of one UID can be told apart, and most
// have a type of their own.
func (s *gSys) mkWant(o GOp, u string) *gNode {
	s.ver++
	w := &gNode{uid: u, typ: fmt.Sprintf("v%d", s.ver), mark: fmt.Sprint(s.ver), attrs: copyMap(o.Attrs), dotid: o.DOT}
	if o.UK%4 == 3 {
		w.typ = "t"
	}
	return w
}

func (s *gSys) create(o GOp, u string) (*pending, error) {
	w := s.mkWant(o, u)
	opts := []graph.Option{}
	if o.DOT != "" {
		opts = append(opts, graph.WithDOTID(o.DOT))
	} else {
		w.dotid = u
	}
	if len(o.Attrs) > 0 {
		opts = append(opts, graph.WithAttrs(mkAttrs(o.Attrs, o.UK)))
	}
	n, err := s.g.NewNode(bg, gEnt(mkUID(u, o.UK), w.typ, markAttrs(w), o.UK/4), rot(opts, o.UK)...)
	if err != nil {
		return nil, fmt.Errorf("creating a node: %v", err)
	}
	if err := checkNode("the created node", n, w); err != nil {
		return nil, err
	}
	id, err := numID(n)
	if err != nil {
		return nil, err
	}
	w.id = id
	for _, x := range s.m.nodes {
		if x.id == id {
			return nil, fmt.Errorf("the node created for %q has the numeric ID %d of %q, which is in the graph", u, id, x.uid)
		}
	}
	if x := s.made[id]; x != nil {
		return nil, fmt.Errorf("the node created for %q has the numeric ID %d, like one the graph created for %q: only one of them could be in the graph", u, id, x.uid)
	}
	if s.made == nil {
		s.made = map[int64]*gNode{}
	}
	s.made[id] = w
	return &pending{n, w}, nil
}

func numID(n graph.Node) (int64, error) {
	x, ok := n.(interface{ ID() int64 })
	if !ok {
		return 0, fmt.Errorf("the created node (a %T) has no numeric ID", n)
	}
	return x.ID(), nil
}

func (s *gSys) add(p *pending, upsert bool) error {
	var opts []graph.Option
	if upsert {
		opts = append(opts, graph.WithUpsert())
		if s.ver%3 == 0 { // options that say nothing about this
			opts = rot([]graph.Option{graph.WithWeight(1), graph.WithUpsert(), graph.WithAttrs(nil)}, s.ver/3)
		}
	}
	u := p.want.uid
	collides := false
	for _, n := range s.m.nodes {
		if n.id == p.want.id && n.uid != u {
			collides = true
		}
	}
	old := s.m.nodes[u]
	var err error
	panicked := func() (r any) {
		defer func() { r = recover() }()
		err = s.g.AddNode(bg, p.node, opts...)
		return nil
	}()
	what := fmt.Sprintf("adding a node %q (numeric ID %d, upsert %v)", u, p.want.id, upsert)
	if collides {
		s.st.collisions++
		if panicked == nil && err == nil {
			return fmt.Errorf("%s: accepted, though the numeric ID belongs to another node", what)
		}
		return nil
	}
	if panicked != nil {
		return fmt.Errorf("%s: panic: %v", what, panicked)
	}
	if old != nil && !upsert {
		s.st.dups++
		if !errors.Is(err, graph.ErrDuplicateNode) {
			return fmt.Errorf("%s, which is in the graph already: error %v; want the duplicate-node error", what, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if old != nil && len(s.m.from(u)) > 0 {
		s.st.upsertLinked++
	}
	s.m.nodes[u] = p.want
	return nil
}

func (s *gSys) link(o GOp, u, v string) error {
	var opts []graph.Option
	w := &gEdge{uid: o.EUID, from: u, to: v, w: 1, attrs: copyMap(o.Attrs)}
	if o.EUID != "" {
		opts = append(opts, graph.WithUID(mkUID(o.EUID, o.UK)))
	}
	if o.DOT != "" {
		opts = append(opts, graph.WithDOTID(o.DOT))
		w.uid = o.DOT
	}
	if o.W != nil {
		opts = append(opts, graph.WithWeight(o.W.F()))
		w.w = o.W.F()
	}
	if o.Attrs != nil {
		opts = append(opts, graph.WithAttrs(mkAttrs(o.Attrs, o.UK)))
	}
	e, err := s.g.Link(bg, mkUID(u, o.UK), mkUID(v, o.UK+1), rot(opts, o.UK)...)
	what := fmt.Sprintf("linking %q to %q", u, v)
	if s.m.nodes[u] == nil || s.m.nodes[v] == nil {
		if !errors.Is(err, graph.ErrNodeNotFound) {
			return fmt.Errorf("%s, not both in the graph: error %v; want the not-found error", what, err)
		}
		return nil
	}
	if u == v {
		if err == nil {
			return fmt.Errorf("%s: accepted", what)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if old := s.m.edge(u, v); old != nil {
		s.st.relinks++
		return checkEdge(what+" again: the edge returned", e, s.m, old, 0)
	}
	if w.uid == "" {
		w.uid = uidStr(e.UID())
		for _, x := range s.m.edges {
			if x.uid == w.uid || w.uid == "" {
				return fmt.Errorf("%s: the edge's UID %q is not its own", what, w.uid)
			}
		}
	}
	w.dotid = w.uid
	s.m.edges[s.m.key(u, v)] = w
	s.st.links++
	return checkEdge(what+": the edge returned", e, s.m, w, 0)
}

type foreignNode struct{ graph.Node }

func (s *gSys) apply(o GOp) error {
	u, v := s.uid(o.U), s.uid(o.V)
	switch o.Op {
	case "add", "upsert":
		p, err := s.create(o, u)
		if err != nil {
			return err
		}
		return s.add(p, o.Op == "upsert")
	case "new":
		p, err := s.create(o, u)
		if err != nil {
			return err
		}
		for _, q := range s.pend {
			if s.m.nodes[q.want.uid] == nil && q.want.uid != u {
				s.st.pendings++
			}
		}
		s.pend = append(s.pend, p)
	case "newmany": // many are created, some of which may be added later
		for i := 0; i < o.N; i++ {
			x := o
			x.UK = i
			p, err := s.create(x, fmt.Sprintf("%s-%d", u, i))
			if err != nil {
				return err
			}
			if i < 2 || i >= o.N-2 {
				s.pend = append(s.pend, p)
			}
		}
	case "addpending", "upsertpending":
		if len(s.pend) == 0 {
			return nil
		}
		return s.add(s.pend[o.V%len(s.pend)], o.Op == "upsertpending")
	case "raw", "rawupsert":
		w := s.mkWant(o, u)
		w.id = o.ID
		opts := []graph.Option{}
		if o.DOT != "" {
			opts = append(opts, graph.WithDOTID(o.DOT))
		} else {
			w.dotid = u
		}
		if o.Attrs != nil {
			opts = append(opts, graph.WithAttrs(mkAttrs(o.Attrs, o.UK)))
		}
		n, err := memgraph.NewNode(o.ID, gEnt(mkUID(u, o.UK), w.typ, markAttrs(w), o.UK/4), opts...)
		must(err)
		return s.add(&pending{n, w}, o.Op == "rawupsert")
	case "addforeign":
		n, err := memgraph.NewNode(999, gEnt(mkUID(u, o.UK), "foreign", memattrs.New(), o.UK/4))
		must(err)
		if err := s.g.AddNode(bg, foreignNode{n}); err == nil {
			return fmt.Errorf("adding a node of a foreign type: accepted")
		}
	case "link":
		return s.link(o, u, v)
	case "edgeattr": // through any handle
		w := s.m.edge(u, v)
		if w == nil {
			return nil
		}
		e, err := s.g.Edge(bg, mkUID(u, o.UK), mkUID(v, o.UK+1))
		if err != nil {
			return fmt.Errorf("edge %q to %q: %v", u, v, err)
		}
		for k, val := range o.Attrs {
			if err := e.Attrs().Set(bg, k, val); err != nil {
				return fmt.Errorf("setting %q of the edge %q to %q: %v", k, u, v, err)
			}
			w.attrs[k] = val
		}
	case "edgedot": // of the edge as listed
		w := s.m.edge(u, v)
		if w == nil {
			return nil
		}
		es, err := s.g.Edges(bg)
		if err != nil {
			return fmt.Errorf("listing the edges: %v", err)
		}
		for _, e := range es {
			f, _ := e.FromNode()
			t, _ := e.ToNode()
			if s.m.edge(uidStr(f.UID()), uidStr(t.UID())) == w {
				e.(interface{ SetDOTID(string) }).SetDOTID(o.DOT)
				w.dotid = o.DOT
			}
		}
	case "nodeattr", "nodedot":
		w := s.m.nodes[u]
		if w == nil {
			return nil
		}
		n, err := s.g.Node(bg, mkUID(u, o.UK))
		if err != nil {
			return fmt.Errorf("node %q: %v", u, err)
		}
		for k, val := range o.Attrs {
			if err := n.Attrs().Set(bg, k, val); err != nil {
				return fmt.Errorf("setting %q of the node %q: %v", k, u, err)
			}
			w.attrs[k] = val
		}
		if o.Op == "nodedot" {
			n.(interface{ SetDOTID(string) }).SetDOTID(o.DOT)
			w.dotid = o.DOT
		}
	case "selflink":
		return s.link(o, u, u)
	case "remove":
		if err := s.g.RemoveNode(bg, mkUID(u, o.UK)); err != nil {
			return fmt.Errorf("removing %q: %v", u, err)
		}
		if len(s.m.from(u)) > 0 {
			s.st.removedLinked++
		}
		s.m.remove(u)
	case "unlink":
		if err := s.g.Unlink(bg, mkUID(u, o.UK), mkUID(v, o.UK+1)); err != nil {
			return fmt.Errorf("unlinking %q and %q: %v", u, v, err)
		}
		if s.m.edge(u, v) != nil {
			s.st.unlinked++
		}
		delete(s.m.edges, s.m.key(u, v))
	case "grow":
		prev := u
		for i := 0; i < o.N; i++ {
			w := fmt.Sprintf("grown-%d", len(s.uids))
			s.uids = append(s.uids, w)
			p, err := s.create(GOp{UK: o.UK}, w)
			if err != nil {
				return err
			}
			if err := s.add(p, false); err != nil {
				return err
			}
			if s.m.nodes[prev] != nil {
				if err := s.link(GOp{UK: i}, prev, w); err != nil {
					return err
				}
			}
			if o.V%2 == 0 { // a chain, else a star
				prev = w
			}
		}
	case "views":
		text, err := s.g.DOT()
		if err != nil {
			return fmt.Errorf("DOT: %v", err)
		}
		if ids := s.m.dotIDs(); ids != nil {
			if err := checkDOT(text, s.g.DOTID(), s.m, nil, nil, nil); err != nil {
				return err
			}
		}
		sub, err := s.g.SubGraph(bg, mkUID(u, o.UK), o.N)
		if s.m.nodes[u] == nil {
			if !errors.Is(err, graph.ErrNodeNotFound) {
				return fmt.Errorf("subgraph of %q, which is not in the graph: error %v", u, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("subgraph of %q: %v", u, err)
		}
		sg, ok := sub.(memgraph.Graph)
		if !ok {
			return fmt.Errorf("the subgraph is a %T", sub)
		}
		if err := checkGraph(sg, s.m.induced(u, o.N), s.uids, anyUID); err != nil {
			return fmt.Errorf("subgraph of %q, depth %d: %v", u, o.N, err)
		}
	default:
		panic("op " + o.Op)
	}
	return nil
}

func runHist(nontrivial func(*gStats) bool) func(GCase, *R) error {
	return func(c GCase, r *R) error {
		s := &gSys{g: newGraph(c.Directed), m: newModel(c.Directed), c: c, uids: append([]string(nil), c.UIDs...)}
		r.LabelIf(c.Directed, "directed")
		for i, o := range c.Ops {
			if err := s.apply(o); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
			if len(s.uids) > 40 && i%8 != 7 && i != len(c.Ops)-1 && o.Op != "grow" {
				continue
			}
			if err := checkGraph(s.g, s.m, s.uids, 0); err != nil {
				return fmt.Errorf("after op %d (%s %q %q): %v", i, o.Op, s.uid(o.U), s.uid(o.V), err)
			}
		}
		if nontrivial(&s.st) {
			r.NonTrivial()
		}
		r.LabelIf(s.st.relinks > 0, "link of linked nodes")
		r.LabelIf(s.st.removedLinked > 0, "removal of a linked node")
		r.LabelIf(s.st.upsertLinked > 0, "upsert of a linked node")
		r.LabelIf(s.st.dups > 0, "duplicate add")
		r.LabelIf(s.st.pendings > 0, "several nodes created before being added")
		r.LabelIf(s.st.collisions > 0, "numeric ID collision")
		r.LabelIf(len(s.m.nodes) > 64, "over 64 nodes")
		return nil
	}
}

var _ attrs.Attrs
var _ uuid.UID
