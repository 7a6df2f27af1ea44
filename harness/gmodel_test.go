package harness

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/uuid"
)

// Graph is what both in-memory graphs offer.
type Graph interface {
	memgraph.Graph
	DOT() (string, error)
	DOTID() string
}

type gNode struct {
	uid, typ, dotid string
	mark            string // in the entity the node was made of, if not empty
	attrs           map[string]string
	id              int64
}

type gEdge struct {
	uid, dotid, from, to string
	w                    float64
	attrs                map[string]string
}

// gModel is a plain graph.
type gModel struct {
	directed bool
	nodes    map[string]*gNode
	edges    map[[2]string]*gEdge
}

func newModel(directed bool) *gModel {
	return &gModel{directed, map[string]*gNode{}, map[[2]string]*gEdge{}}
}

func (m *gModel) key(u, v string) [2]string {
	if !m.directed && u > v {
		u, v = v, u
	}
	return [2]string{u, v}
}

func (m *gModel) edge(u, v string) *gEdge { return m.edges[m.key(u, v)] }

// nthEdge is one of the edges, which there must be.
func (m *gModel) nthEdge(n int) *gEdge {
	var ks [][2]string
	for k := range m.edges {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%q", ks[i]) < fmt.Sprintf("%q", ks[j]) })
	return m.edges[ks[n%len(ks)]]
}

func (m *gModel) remove(u string) {
	delete(m.nodes, u)
	for k := range m.edges {
		if k[0] == u || k[1] == u {
			delete(m.edges, k)
		}
	}
}

func (m *gModel) from(u string) []string {
	set := map[string]bool{}
	for k := range m.edges {
		if k[0] == u {
			set[k[1]] = true
		}
		if !m.directed && k[1] == u {
			set[k[0]] = true
		}
	}
	return sortedKeys(set)
}

func (m *gModel) clone() *gModel {
	c := newModel(m.directed)
	for k, n := range m.nodes {
		x := *n
		x.attrs = copyMap(n.attrs)
		c.nodes[k] = &x
	}
	for k, e := range m.edges {
		x := *e
		x.attrs = copyMap(e.attrs)
		c.edges[k] = &x
	}
	return c
}

// induced is the subgraph of the nodes within depth steps of root.
func (m *gModel) induced(root string, depth int) *gModel {
	seen := map[string]bool{root: true}
	level := []string{root}
	for d := 0; d < depth && len(level) > 0; d++ {
		var next []string
		for _, u := range level {
			for _, v := range m.from(u) {
				if !seen[v] {
					seen[v] = true
					next = append(next, v)
				}
			}
		}
		level = next
	}
	c := m.clone()
	for u := range m.nodes {
		if !seen[u] {
			c.remove(u)
		}
	}
	return c
}

func newGraph(directed bool, opts ...graph.Option) Graph {
	if directed {
		g, err := memgraph.NewWDG(opts...)
		must(err)
		return g
	}
	g, err := memgraph.NewWUG(opts...)
	must(err)
	return g
}

// checkNode compares a node of the graph with the model's.
func checkNode(what string, n graph.Node, want *gNode) error {
	if n == nil {
		return fmt.Errorf("%s is nil", what)
	}
	if got := uidStr(n.UID()); got != want.uid {
		return fmt.Errorf("%s has UID %q, want %q", what, got, want.uid)
	}
	if ty, ok := n.(interface{ Type() string }); ok && ty.Type() != want.typ {
		return fmt.Errorf("%s is the node of %q, want that of %q", what, ty.Type(), want.typ)
	}
	if d, ok := n.(interface{ DOTID() string }); ok && want.dotid != "" && d.DOTID() != want.dotid {
		return fmt.Errorf("%s has DOT ID %q, want %q", what, d.DOTID(), want.dotid)
	}
	if err := checkMark(what, n, want); err != nil {
		return err
	}
	return wantAttrs(what, n.Attrs(), want.attrs)
}

func markAttrs(w *gNode) attrs.Attrs {
	return memattrs.NewFromMap(map[string]string{"entity": w.mark})
}

// checkMark checks that n holds the entity it was made of.
func checkMark(what string, n graph.Node, want *gNode) error {
	v := reflect.Indirect(reflect.ValueOf(n))
	if want.mark == "" || v.Kind() != reflect.Struct {
		return nil
	}
	f := v.FieldByName("Entity")
	if !f.IsValid() || !f.CanInterface() {
		return nil
	}
	e, ok := f.Interface().(graph.Entity)
	if !ok {
		return nil
	}
	return wantAttrs(what+": its entity", e.Attrs(), map[string]string{"entity": want.mark})
}

type edgeOpt int

const (
	anyUID edgeOpt = 1 << iota
)

func checkEdge(what string, e graph.Edge, m *gModel, want *gEdge, o edgeOpt) error {
	if e == nil {
		return fmt.Errorf("%s is nil", what)
	}
	if o&anyUID == 0 && uidStr(e.UID()) != want.uid {
		return fmt.Errorf("%s has UID %q, want %q", what, uidStr(e.UID()), want.uid)
	}
	if o&anyUID == 0 {
		if d, ok := e.(interface{ DOTID() string }); ok && d.DOTID() != want.dotid {
			return fmt.Errorf("%s has DOT ID %q, want %q", what, d.DOTID(), want.dotid)
		}
	}
	if !sameWeight(e.Weight(), want.w) {
		return fmt.Errorf("%s has weight %v, want %v", what, e.Weight(), want.w)
	}
	f, ferr := e.FromNode()
	t, terr := e.ToNode()
	if ferr != nil || terr != nil || f == nil || t == nil {
		return fmt.Errorf("%s: endpoints %v, %v (%v, %v)", what, f, t, ferr, terr)
	}
	fu, tu := uidStr(f.UID()), uidStr(t.UID())
	if m.key(fu, tu) != m.key(want.from, want.to) {
		return fmt.Errorf("%s runs from %q to %q, want %q to %q", what, fu, tu, want.from, want.to)
	}
	if err := checkNode(what+"'s from node", f, m.nodes[fu]); err != nil {
		return err
	}
	if err := checkNode(what+"'s to node", t, m.nodes[tu]); err != nil {
		return err
	}
	return wantAttrs(what, e.Attrs(), want.attrs)
}

// checkGraph compares everything the graph reports with the model. uids are
// the UIDs to ask for, present or not.
func checkGraph(g memgraph.Graph, m *gModel, uids []string, o edgeOpt) error {
	ns, err := g.Nodes(bg)
	if err != nil {
		return fmt.Errorf("listing the nodes: %v", err)
	}
	seen := map[string]bool{}
	for i, n := range ns {
		u := uidStr(n.UID())
		if seen[u] {
			return fmt.Errorf("node %q is listed twice", u)
		}
		seen[u] = true
		w := m.nodes[u]
		if w == nil {
			return fmt.Errorf("node %q is listed but not in the graph", u)
		}
		if err := checkNode(fmt.Sprintf("listed node %d", i), n, w); err != nil {
			return err
		}
	}
	if len(seen) != len(m.nodes) {
		return fmt.Errorf("%d nodes are listed, want %d: %q, want %q", len(seen), len(m.nodes), sortedKeys(seen), sortedKeys(m.nodes))
	}
	es, err := g.Edges(bg)
	if err != nil {
		return fmt.Errorf("listing the edges: %v", err)
	}
	eseen := map[[2]string]bool{}
	for i, e := range es {
		f, _ := e.FromNode()
		t, _ := e.ToNode()
		k := m.key(uidStr(f.UID()), uidStr(t.UID()))
		if eseen[k] {
			return fmt.Errorf("the edge %q is listed twice", k)
		}
		eseen[k] = true
		w := m.edges[k]
		if w == nil {
			return fmt.Errorf("an edge %q is listed but not in the graph", k)
		}
		if err := checkEdge(fmt.Sprintf("listed edge %d", i), e, m, w, o); err != nil {
			return err
		}
	}
	if len(eseen) != len(m.edges) {
		return fmt.Errorf("%d edges are listed, want %d", len(eseen), len(m.edges))
	}
	for i, u := range uids {
		if err := checkUID(g, m, u, i); err != nil {
			return err
		}
	}
	if len(uids) > 40 { // all pairs would be too many: all edges, and a diagonal
		for k, w := range m.edges {
			e, err := g.Edge(bg, mkUID(k[0], 0), mkUID(k[1], 1))
			if err != nil {
				return fmt.Errorf("edge %q: %v", k, err)
			}
			if err := checkEdge(fmt.Sprintf("edge %q", k), e, m, w, o); err != nil {
				return err
			}
		}
		for i, u := range uids {
			if err := checkPair(g, m, u, uids[(i+1)%len(uids)], i, o); err != nil {
				return err
			}
		}
		return nil
	}
	for i, u := range uids {
		for j, v := range uids {
			if err := checkPair(g, m, u, v, i+j, o); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkUID(g memgraph.Graph, m *gModel, u string, i int) error {
	n, err := g.Node(bg, mkUID(u, i))
	if w := m.nodes[u]; w != nil {
		if err != nil {
			return fmt.Errorf("node %q: %v", u, err)
		}
		if err := checkNode(fmt.Sprintf("node %q", u), n, w); err != nil {
			return err
		}
	} else if !errors.Is(err, graph.ErrNodeNotFound) {
		return fmt.Errorf("node %q, which is not in the graph: %v, error %v; want the not-found error", u, n, err)
	}
	fs, err := g.From(bg, mkUID(u, i+1))
	if m.nodes[u] == nil {
		if len(fs) > 0 || err != nil && !errors.Is(err, graph.ErrNodeNotFound) {
			return fmt.Errorf("from %q, which is not in the graph: %v, error %v", u, fs, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("from %q: %v", u, err)
	}
	got := []string{}
	for _, n := range fs {
		v := uidStr(n.UID())
		got = append(got, v)
		if w := m.nodes[v]; w != nil {
			if err := checkNode(fmt.Sprintf("%q, reachable from %q", v, u), n, w); err != nil {
				return err
			}
		}
	}
	sort.Strings(got)
	if want := m.from(u); fmt.Sprint(len(got), got) != fmt.Sprint(len(want), want) {
		return fmt.Errorf("directly reachable from %q: %q, want %q", u, got, want)
	}
	return nil
}

func checkPair(g memgraph.Graph, m *gModel, u, v string, kind int, o edgeOpt) error {
	e, err := g.Edge(bg, mkUID(u, kind), mkUID(v, kind+1))
	switch w := m.edge(u, v); {
	case m.nodes[u] == nil || m.nodes[v] == nil:
		if !errors.Is(err, graph.ErrNodeNotFound) {
			return fmt.Errorf("edge %q to %q, not both in the graph: %v, error %v; want the not-found error", u, v, e, err)
		}
	case w == nil:
		if !errors.Is(err, graph.ErrEdgeNotExist) {
			return fmt.Errorf("edge %q to %q, not linked: %v, error %v; want the not-exist error", u, v, e, err)
		}
	default:
		if err != nil {
			return fmt.Errorf("edge %q to %q: %v", u, v, err)
		}
		return checkEdge(fmt.Sprintf("edge %q to %q", u, v), e, m, w, o)
	}
	return nil
}

// gEnt makes the entity of a node: one of the constructors' or, without a
// DOT ID of its own, the harness's.
func gEnt(uid uuid.UID, typ string, a attrs.Attrs, kind int) graph.Entity {
	if kind%2 == 0 {
		return tEnt{uid, typ, a}
	}
	e, err := entity.New(typ, entity.WithUID(uid), entity.WithAttrs(a))
	must(err)
	return e
}

var _ context.Context
