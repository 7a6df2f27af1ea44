package harness

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	gonum "gonum.org/v1/gonum/graph"
	"gonum.org/v1/gonum/graph/simple"
	"pgregory.net/rapid"
)

func init() {
	gops := []string{"add", "add", "upsert", "remove", "remove", "link", "link", "link", "unlink", "node", "nodes", "edge", "edges", "from", "sub", "dot", "meta"}
	setup := func(t *rapid.T) []COp {
		ops := []COp{{Op: "add", U: 0}, {Op: "add", U: 1}, {Op: "add", U: 2}}
		return append(ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) COp {
			u := rapid.IntRange(0, 2).Draw(t, "u")
			return COp{Op: "link", U: u, V: (u + rapid.IntRange(1, 2).Draw(t, "v")) % 3}
		}), 0, 3).Draw(t, "links")...)
	}
	register("G06",
		Part("schedules", 2500, 40000, schedRule, genConc(gops, 2, 3, setup, "sched"), runConc(newGConc, checkGConc)),
		Part("free", 2500, 40000, freeRule, genConc(gops, 2, 3, setup, "free", "race", "race"), runConc(newGConc, checkGConc)),
		Part("large", 250, 12000, bigRule, genBig(2, []bigOp{
			{"sub", []string{"bulkadd", "bulklink"}, []string{"unlink", "upsert", "remove", "link"}},
			{"nodes", []string{"bulkadd"}, []string{"upsert", "remove"}},
			{"edges", []string{"bulkadd", "bulklink"}, []string{"unlink", "remove", "link"}},
			{"from", []string{"bulkadd", "bulklink"}, []string{"unlink", "upsert", "remove"}},
			{"dot", []string{"bulkadd", "bulklink"}, []string{"unlink", "upsert", "remove"}},
			{"remove", []string{"bulkadd", "bulklink"}, []string{"edges", "from", "sub", "dot", "link"}},
		}), runBig(newGConc, checkGConc)))
	sops := []string{"add", "add", "upsert", "get", "get", "delete", "link", "link", "unlink", "bulkadd", "bulkupsert", "bulkget", "bulkget", "bulkdelete", "bulklink", "bulkunlink"}
	register("S03",
		Part("schedules", 3600, 60000, schedRule, genConc(sops, 3, 3, setup, "sched"), runConc(newSConc, checkSConc)),
		Part("free", 2500, 40000, freeRule, genConc(sops, 4, 3, setup, "free", "race", "race"), runConc(newSConc, checkSConc)),
		Part("large", 250, 12000, bigRule, genBig(4, []bigOp{
			{"bulkadd", nil, []string{"bulkget", "get", "add", "upsert", "bulkadd", "delete", "bulkdelete"}},
			{"bulkupsert", []string{"bulkadd"}, []string{"bulkget", "get", "upsert", "bulkupsert", "delete", "bulkdelete"}},
			{"bulkget", []string{"bulkadd"}, []string{"upsert", "bulkupsert", "delete", "bulkdelete"}},
			{"bulkdelete", []string{"bulkadd"}, []string{"bulkget", "get", "add", "bulkadd", "link"}},
			{"bulkdelete", []string{"bulkadd", "bulklink"}, []string{"bulkget", "upsert", "bulklink", "link"}},
			{"bulklink", []string{"bulkadd"}, []string{"bulkunlink", "unlink", "link", "delete", "bulkdelete"}},
			{"bulkunlink", []string{"bulkadd", "bulklink"}, []string{"bulklink", "link", "delete", "bulkdelete"}},
			{"delete", []string{"bulkadd", "bulklink"}, []string{"link", "unlink", "bulkget", "bulkunlink"}},
		}), runBig(newSConc, checkSConc)))
}

// ---- the gonum graph behind a graph

type hBuilder interface {
	memgraph.WeightedGraphBuilder
}

// overlap notices calls that change the gonum graph while others use it.
type overlap struct {
	s       *scheduler
	mu      sync.Mutex
	readers int
	writer  string
	found   string
}

func (o *overlap) in(write bool, name string) func() {
	if o.s == nil || o.s.mode == "race" { // nothing here may order the workers
		o.s.yield()
		return func() {}
	}
	o.mu.Lock()
	if o.found == "" && (o.writer != "" || write && o.readers > 0) {
		o.found = fmt.Sprintf("%s was called on the gonum graph during %s (%d readers)", name, o.writer, o.readers)
	}
	if write {
		o.writer = name
	} else {
		o.readers++
	}
	o.mu.Unlock()
	o.s.yield()
	return func() {
		o.mu.Lock()
		if write {
			o.writer = ""
		} else {
			o.readers--
		}
		o.mu.Unlock()
	}
}

type hDirected struct {
	*simple.WeightedDirectedGraph
	o *overlap
}

type hUndirected struct {
	*simple.WeightedUndirectedGraph
	o *overlap
}

func (g hDirected) AddNode(n gonum.Node) {
	defer g.o.in(true, "AddNode")()
	g.WeightedDirectedGraph.AddNode(n)
}
func (g hDirected) RemoveNode(id int64) {
	defer g.o.in(true, "RemoveNode")()
	g.WeightedDirectedGraph.RemoveNode(id)
}
func (g hDirected) RemoveEdge(u, v int64) {
	defer g.o.in(true, "RemoveEdge")()
	g.WeightedDirectedGraph.RemoveEdge(u, v)
}
func (g hDirected) SetWeightedEdge(e gonum.WeightedEdge) {
	defer g.o.in(true, "SetWeightedEdge")()
	g.WeightedDirectedGraph.SetWeightedEdge(e)
}
func (g hDirected) NewNode() gonum.Node {
	defer g.o.in(false, "NewNode")()
	return g.WeightedDirectedGraph.NewNode()
}
func (g hDirected) Node(id int64) gonum.Node {
	defer g.o.in(false, "Node")()
	return g.WeightedDirectedGraph.Node(id)
}
func (g hDirected) Nodes() gonum.Nodes {
	defer g.o.in(false, "Nodes")()
	return g.WeightedDirectedGraph.Nodes()
}
func (g hDirected) From(id int64) gonum.Nodes {
	defer g.o.in(false, "From")()
	return g.WeightedDirectedGraph.From(id)
}
func (g hDirected) WeightedEdge(u, v int64) gonum.WeightedEdge {
	defer g.o.in(false, "WeightedEdge")()
	return g.WeightedDirectedGraph.WeightedEdge(u, v)
}
func (g hDirected) Edge(u, v int64) gonum.Edge {
	defer g.o.in(false, "Edge")()
	return g.WeightedDirectedGraph.Edge(u, v)
}
func (g hDirected) WeightedEdges() gonum.WeightedEdges {
	defer g.o.in(false, "WeightedEdges")()
	return g.WeightedDirectedGraph.WeightedEdges()
}

func (g hUndirected) AddNode(n gonum.Node) {
	defer g.o.in(true, "AddNode")()
	g.WeightedUndirectedGraph.AddNode(n)
}
func (g hUndirected) RemoveNode(id int64) {
	defer g.o.in(true, "RemoveNode")()
	g.WeightedUndirectedGraph.RemoveNode(id)
}
func (g hUndirected) RemoveEdge(u, v int64) {
	defer g.o.in(true, "RemoveEdge")()
	g.WeightedUndirectedGraph.RemoveEdge(u, v)
}
func (g hUndirected) SetWeightedEdge(e gonum.WeightedEdge) {
	defer g.o.in(true, "SetWeightedEdge")()
	g.WeightedUndirectedGraph.SetWeightedEdge(e)
}
func (g hUndirected) NewNode() gonum.Node {
	defer g.o.in(false, "NewNode")()
	return g.WeightedUndirectedGraph.NewNode()
}
func (g hUndirected) Node(id int64) gonum.Node {
	defer g.o.in(false, "Node")()
	return g.WeightedUndirectedGraph.Node(id)
}
func (g hUndirected) Nodes() gonum.Nodes {
	defer g.o.in(false, "Nodes")()
	return g.WeightedUndirectedGraph.Nodes()
}
func (g hUndirected) From(id int64) gonum.Nodes {
	defer g.o.in(false, "From")()
	return g.WeightedUndirectedGraph.From(id)
}
func (g hUndirected) WeightedEdge(u, v int64) gonum.WeightedEdge {
	defer g.o.in(false, "WeightedEdge")()
	return g.WeightedUndirectedGraph.WeightedEdge(u, v)
}
func (g hUndirected) Edge(u, v int64) gonum.Edge {
	defer g.o.in(false, "Edge")()
	return g.WeightedUndirectedGraph.Edge(u, v)
}
func (g hUndirected) WeightedEdges() gonum.WeightedEdges {
	defer g.o.in(false, "WeightedEdges")()
	return g.WeightedUndirectedGraph.WeightedEdges()
}

// ---- the graph

type gConc struct {
	s        *scheduler
	g        Graph
	o        *overlap
	directed bool
}

func newGConc(c CCase, s *scheduler) (conSys, error) {
	o := &overlap{s: s}
	x := &gConc{s: s, o: o, directed: c.Kind == 0}
	var b hBuilder = hUndirected{simple.NewWeightedUndirectedGraph(0, 0), o}
	if x.directed {
		b = hDirected{simple.NewWeightedDirectedGraph(0, 0), o}
	}
	if c.Mode == "race" { // the graph as users make it
		x.g = newGraph(x.directed)
		return x, nil
	}
	g, err := memgraph.NewWG(b)
	if err != nil {
		return nil, err
	}
	x.g = g
	return x, nil
}

func (x *gConc) uid(i int) uuid.UID { return hUID{x.s, string(rune('a' + i))} }

func nodeVer(n graph.Node) string {
	if t, ok := n.(interface{ Type() string }); ok {
		return t.Type()
	}
	return fmt.Sprintf("%T", n)
}

func nodeVers(ns []graph.Node) string {
	var out []string
	for _, n := range ns {
		out = append(out, nodeVer(n))
	}
	return join(out)
}

func (x *gConc) edge(e graph.Edge) string {
	f, _ := e.FromNode()
	t, _ := e.ToNode()
	a, b := nodeVer(f), nodeVer(t)
	if !x.directed && a > b {
		a, b = b, a
	}
	rel, _ := e.Attrs().Get(bg, "relation")
	return fmt.Sprintf("%s(%s,%s)", rel, a, b)
}

func (x *gConc) edges(es []graph.Edge) string {
	var out []string
	for _, e := range es {
		out = append(out, x.edge(e))
	}
	return join(out)
}

func (x *gConc) do(o COp, id string) string {
	if one, ok := strings.CutPrefix(o.Op, "bulk"); ok { // a BigCase's set-up
		for i, l := range o.L {
			c := COp{Op: one, U: o.U, V: l}
			if one == "add" {
				c = COp{Op: one, U: l}
			}
			x.do(c, fmt.Sprintf("%s/%d", id, i))
		}
		return "ok"
	}
	u, v := x.uid(o.U), x.uid(o.V)
	switch o.Op {
	case "add", "upsert":
		n, err := x.g.NewNode(bg, hEnt{x.s, string(rune('a' + o.U)), id, memattrs.New()}, graph.WithDOTID(id))
		if err != nil {
			return "NewNode: " + err.Error()
		}
		var opts []graph.Option
		if o.Op == "upsert" {
			opts = append(opts, graph.WithUpsert())
		}
		err = x.g.AddNode(bg, n, opts...)
		if errors.Is(err, graph.ErrDuplicateNode) {
			return "dup"
		}
		return errStr(err)
	case "remove":
		return errStr(x.g.RemoveNode(bg, u))
	case "link":
		e, err := x.g.Link(bg, u, v, graph.WithAttrs(memattrs.NewFromMap(map[string]string{"relation": id})))
		if errors.Is(err, graph.ErrNodeNotFound) {
			return "notfound"
		}
		if err != nil {
			if o.U == o.V {
				return "refused"
			}
			return err.Error()
		}
		return x.edge(e)
	case "unlink":
		return errStr(x.g.Unlink(bg, u, v))
	case "node":
		n, err := x.g.Node(bg, u)
		if errors.Is(err, graph.ErrNodeNotFound) {
			return "notfound"
		}
		if err != nil {
			return err.Error()
		}
		return nodeVer(n)
	case "nodes":
		ns, err := x.g.Nodes(bg)
		if err != nil {
			return err.Error()
		}
		return nodeVers(ns)
	case "edge":
		e, err := x.g.Edge(bg, u, v)
		switch {
		case errors.Is(err, graph.ErrNodeNotFound):
			return "notfound"
		case errors.Is(err, graph.ErrEdgeNotExist):
			return "noedge"
		case err != nil:
			return err.Error()
		}
		return x.edge(e)
	case "edges":
		es, err := x.g.Edges(bg)
		if err != nil {
			return err.Error()
		}
		return x.edges(es)
	case "from":
		ns, err := x.g.From(bg, u)
		if err != nil && !errors.Is(err, graph.ErrNodeNotFound) {
			return err.Error()
		}
		return nodeVers(ns)
	case "sub":
		sg, err := x.g.SubGraph(bg, u, 1)
		if errors.Is(err, graph.ErrNodeNotFound) {
			return "notfound"
		}
		if err != nil {
			return err.Error()
		}
		ns, err := sg.Nodes(bg)
		if err != nil {
			return err.Error()
		}
		es, err := sg.(memgraph.Graph).Edges(bg)
		if err != nil {
			return err.Error()
		}
		return nodeVers(ns) + x.edges(es)
	case "dot":
		text, err := x.g.DOT()
		if err != nil {
			return err.Error()
		}
		d, err := parseDOT(text)
		if err != nil {
			return err.Error()
		}
		var es []string
		for _, e := range d.edges {
			a, b := e.from, e.to
			if !x.directed && a > b {
				a, b = b, a
			}
			es = append(es, fmt.Sprintf("%s(%s,%s)", e.attrs["relation"], a, b))
		}
		return join(sortedKeys(d.nodes)) + join(es)
	case "meta":
		return fmt.Sprint(x.g.UID() != nil, x.g.DOTID() != "")
	case "final":
		ns, err := x.g.Nodes(bg)
		if err != nil {
			return err.Error()
		}
		es, err := x.g.Edges(bg)
		if err != nil {
			return err.Error()
		}
		out := nodeVers(ns) + x.edges(es)
		for i := 0; i < 3; i++ {
			out += x.do(COp{Op: "node", U: i}, "") + x.do(COp{Op: "from", U: i}, "")
		}
		return out
	}
	panic("op " + o.Op)
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

func (x *gConc) model() conModel {
	return &gMini{directed: x.directed, nodes: map[int]string{}, edges: map[[2]int]string{}}
}

func checkGConc(c conSys) error {
	x := c.(*gConc)
	if x.o.found != "" {
		return fmt.Errorf("unordered use: %s", x.o.found)
	}
	return consistent(x.g)
}

// consistent checks that the views of the graph agree with one another.
func consistent(g Graph) error {
	ns, err := g.Nodes(bg)
	if err != nil {
		return err
	}
	nodes := map[string]graph.Node{}
	for _, n := range ns {
		u := uidStr(n.UID())
		if nodes[u] != nil {
			return fmt.Errorf("afterwards the node %q is listed twice", u)
		}
		nodes[u] = n
		if m, err := g.Node(bg, n.UID()); err != nil || m != n {
			return fmt.Errorf("afterwards the node %q is listed, looking it up gives %v, %v", u, m, err)
		}
	}
	for _, u := range []string{"a", "b", "c"} {
		if _, err := g.Node(bg, mkUID(u, 0)); err == nil && nodes[u] == nil {
			return fmt.Errorf("afterwards the node %q can be looked up but is not listed", u)
		}
	}
	es, err := g.Edges(bg)
	if err != nil {
		return err
	}
	for _, e := range es {
		f, _ := e.FromNode()
		t, _ := e.ToNode()
		fu, tu := uidStr(f.UID()), uidStr(t.UID())
		if nodes[fu] != f || nodes[tu] != t {
			return fmt.Errorf("afterwards the edge %q to %q has end points that are not in the graph", fu, tu)
		}
		if x, err := g.Edge(bg, f.UID(), t.UID()); err != nil || uidStr(x.UID()) != uidStr(e.UID()) {
			return fmt.Errorf("afterwards the edge %q to %q is listed, looking it up gives %v, %v", fu, tu, x, err)
		}
	}
	return nil
}

// gMini is the model of graph and store with node and edge versions.
type gMini struct {
	directed bool
	nodes    map[int]string
	edges    map[[2]int]string
}

func (m *gMini) clone() conModel {
	c := &gMini{m.directed, map[int]string{}, map[[2]int]string{}}
	for k, v := range m.nodes {
		c.nodes[k] = v
	}
	for k, v := range m.edges {
		c.edges[k] = v
	}
	return c
}

func (m *gMini) key() string { return fmt.Sprint(m.nodes, m.edges) }

func (m *gMini) ek(u, v int) [2]int {
	if !m.directed && u > v {
		u, v = v, u
	}
	return [2]int{u, v}
}

func (m *gMini) show(k [2]int) string {
	a, b := m.nodes[k[0]], m.nodes[k[1]]
	if !m.directed && a > b {
		a, b = b, a
	}
	return fmt.Sprintf("%s(%s,%s)", m.edges[k], a, b)
}

func (m *gMini) all(keep func(int) bool) (nodes, edges string) {
	var ns, es []string
	for u, v := range m.nodes {
		if keep(u) {
			ns = append(ns, v)
		}
	}
	for k := range m.edges {
		if keep(k[0]) && keep(k[1]) {
			es = append(es, m.show(k))
		}
	}
	return join(ns), join(es)
}

func (m *gMini) from(u int) map[int]bool {
	out := map[int]bool{}
	for k := range m.edges {
		if k[0] == u {
			out[k[1]] = true
		}
		if !m.directed && k[1] == u {
			out[k[0]] = true
		}
	}
	return out
}

func (m *gMini) step(o COp, id string) string {
	switch o.Op {
	case "add", "upsert":
		if _, ok := m.nodes[o.U]; ok && o.Op == "add" {
			return "dup"
		}
		m.nodes[o.U] = id
		return "ok"
	case "remove":
		delete(m.nodes, o.U)
		for k := range m.edges {
			if k[0] == o.U || k[1] == o.U {
				delete(m.edges, k)
			}
		}
		return "ok"
	case "link":
		if m.nodes[o.U] == "" || m.nodes[o.V] == "" {
			return "notfound"
		}
		if o.U == o.V {
			return "refused"
		}
		k := m.ek(o.U, o.V)
		if m.edges[k] == "" {
			m.edges[k] = id
		}
		return m.show(k)
	case "unlink":
		delete(m.edges, m.ek(o.U, o.V))
		return "ok"
	case "node":
		if m.nodes[o.U] == "" {
			return "notfound"
		}
		return m.nodes[o.U]
	case "nodes":
		ns, _ := m.all(func(int) bool { return true })
		return ns
	case "edges":
		_, es := m.all(func(int) bool { return true })
		return es
	case "edge":
		k := m.ek(o.U, o.V)
		switch {
		case m.nodes[o.U] == "" || m.nodes[o.V] == "":
			return "notfound"
		case m.edges[k] == "":
			return "noedge"
		}
		return m.show(k)
	case "from":
		var ns []string
		for v := range m.from(o.U) {
			ns = append(ns, m.nodes[v])
		}
		return join(ns)
	case "sub":
		if m.nodes[o.U] == "" {
			return "notfound"
		}
		in := m.from(o.U)
		in[o.U] = true
		ns, es := m.all(func(u int) bool { return in[u] })
		return ns + es
	case "dot":
		ns, es := m.all(func(int) bool { return true })
		return ns + es
	case "meta":
		return "true true"
	case "final":
		ns, es := m.all(func(int) bool { return true })
		out := ns + es
		for i := 0; i < 3; i++ {
			out += m.step(COp{Op: "node", U: i}, "") + m.step(COp{Op: "from", U: i}, "")
		}
		return out
	}
	panic("op " + o.Op)
}

// ---- the store

type sConc struct {
	s *scheduler
	t Store
	h memgraph.Graph
	g *gConc
	l *lockless
}

// lockless makes a graph one that has no lock of its own, whose calls take
// time: calls that change it must be made while no other is.
type lockless struct {
	s               *scheduler
	readers, writes atomic.Int32
	overlap         atomic.Value
	plain           int // for the race detector
}

func (l *lockless) around(method string, f func() error) error {
	write := false
	switch method {
	case "NewNode", "AddNode", "RemoveNode", "Link", "Unlink":
		write = true
	}
	if l.s.mode == "race" {
		if write {
			l.plain++
		} else if l.plain < 0 {
			panic("never")
		}
		return f()
	}
	mine := &l.readers
	if write {
		mine = &l.writes
	}
	mine.Add(1)
	if w := l.writes.Load(); w > 1 || w > 0 && l.readers.Load() > 0 {
		l.overlap.Store(method)
	}
	l.s.yield()
	err := f()
	l.s.yield()
	mine.Add(-1)
	return err
}

// hGraph yields before every call to the graph behind a store.
func hGraph(s *scheduler, g memgraph.Graph) memgraph.Graph {
	return &faultGraph{Graph: g, fault: func(string, ...string) (error, bool) { s.yield(); return nil, false }}
}

func newSConc(c CCase, s *scheduler) (conSys, error) {
	var opts []memstore.Option
	l := &lockless{s: s}
	switch c.Kind {
	case 0, 1:
		opts = append(opts, memstore.WithGraph(hGraph(s, newGraph(c.Kind == 0))))
	case 2:
		g := hGraph(s, newGraph(false)).(*faultGraph)
		g.around = l.around
		opts = append(opts, memstore.WithGraph(g))
	}
	t, err := memstore.NewStore(opts...)
	if err != nil {
		return nil, err
	}
	h, err := t.Graph()
	if err != nil {
		return nil, err
	}
	return &sConc{s: s, t: t, h: h.(memgraph.Graph), g: &gConc{directed: c.Kind == 0}, l: l}, nil
}

func (x *sConc) uid(i int) uuid.UID { return hUID{x.s, string(rune('a' + i))} }

func (x *sConc) model() conModel {
	return &sMini{gMini{directed: x.g.directed, nodes: map[int]string{}, edges: map[[2]int]string{}}}
}

func checkSConc(c conSys) error {
	if m := c.(*sConc).l.overlap.Load(); m != nil {
		return fmt.Errorf("the store's call to its graph's %s overlaps another one, and one of the two is a change: a graph without a lock of its own would break", m)
	}
	_, err := observe(c.(*sConc).h)
	return err
}

func (x *sConc) ent(u int, id string) store.Entity {
	return hEnt{x.s, string(rune('a' + u)), id, memattrs.New()}
}

func classStr(err error) string {
	if c := class(err); c != cOK && c != cOther {
		return c
	}
	return errStr(err)
}

func (x *sConc) do(o COp, id string) string {
	u, v := x.uid(o.U), x.uid(o.V)
	rel := store.WithAttrs(memattrs.NewFromMap(map[string]string{"relation": id}))
	var uids []uuid.UID
	var ents []store.Entity
	for i, l := range o.L {
		uids = append(uids, x.uid(l))
		ents = append(ents, x.ent(l, fmt.Sprintf("%s/%d", id, i)))
	}
	var opts []store.Option
	if strings.HasSuffix(o.Op, "upsert") {
		opts = append(opts, store.WithUpsert())
	}
	self := func(err error) string {
		if err != nil && class(err) == cOther {
			return "refused"
		}
		return classStr(err)
	}
	switch o.Op {
	case "add", "upsert":
		return classStr(x.t.Add(bg, x.ent(o.U, id), opts...))
	case "bulkadd", "bulkupsert":
		return classStr(x.t.BulkAdd(bg, ents, opts...))
	case "get":
		e, err := x.t.Get(bg, u)
		if err != nil {
			return classStr(err)
		}
		return e.Type()
	case "bulkget":
		es, err := x.t.BulkGet(bg, uids)
		if err != nil {
			return classStr(err)
		}
		var out []string
		for _, e := range es {
			if e == nil {
				return "nil entity"
			}
			out = append(out, e.Type())
		}
		return strings.Join(out, " ")
	case "delete":
		return classStr(x.t.Delete(bg, u))
	case "bulkdelete":
		return classStr(x.t.BulkDelete(bg, uids))
	case "link":
		return self(x.t.Link(bg, u, v, rel))
	case "bulklink":
		return self(x.t.BulkLink(bg, u, uids, rel))
	case "unlink":
		return classStr(x.t.Unlink(bg, u, v))
	case "bulkunlink":
		return classStr(x.t.BulkUnlink(bg, u, uids))
	case "final":
		ns, err := x.h.Nodes(bg)
		if err != nil {
			return err.Error()
		}
		es, err := x.h.Edges(bg)
		if err != nil {
			return err.Error()
		}
		return nodeVers(ns) + x.g.edges(es)
	}
	panic("op " + o.Op)
}

type sMini struct{ g gMini }

func (m *sMini) clone() conModel { return &sMini{*m.g.clone().(*gMini)} }
func (m *sMini) key() string     { return m.g.key() }

func (m *sMini) step(o COp, id string) string {
	one := func(op COp, id string) string {
		switch r := m.g.step(op, id); r {
		case "dup":
			return cExists
		case "notfound":
			return cNotFound
		default:
			return r
		}
	}
	linked := func(r string) string {
		if strings.Contains(r, "(") {
			return "ok"
		}
		return r
	}
	switch o.Op {
	case "add", "upsert", "unlink":
		return one(o, id)
	case "get":
		return one(COp{Op: "node", U: o.U}, id)
	case "delete":
		return one(COp{Op: "remove", U: o.U}, id)
	case "link":
		return linked(one(o, id))
	case "final":
		ns, es := m.g.all(func(int) bool { return true })
		return ns + es
	}
	var out []string
	for i, l := range o.L {
		var r string
		switch o.Op {
		case "bulkadd", "bulkupsert":
			r = one(COp{Op: strings.TrimPrefix(o.Op, "bulk"), U: l}, fmt.Sprintf("%s/%d", id, i))
		case "bulkget":
			if r = one(COp{Op: "node", U: l}, id); r == cNotFound {
				return r
			}
			out = append(out, r)
			continue
		case "bulkdelete":
			r = one(COp{Op: "remove", U: l}, id)
		case "bulklink":
			r = linked(one(COp{Op: "link", U: o.U, V: l}, id))
		case "bulkunlink":
			r = one(COp{Op: "unlink", U: o.U, V: l}, id)
		}
		if r != "ok" {
			return r
		}
	}
	if o.Op == "bulkget" {
		return strings.Join(out, " ")
	}
	return "ok"
}
