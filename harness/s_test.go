package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"pgregory.net/rapid"
)

func init() {
	register("S01", Part("histories", 3000, 60000, "histories of up to 40 store operations (tail: 160), single and bulk, on a store with its default graph or one given to it (directed or undirected), over two to seven UIDs (tail: 77), with entities of four kinds, attributes given or not, upserts; after each operation every entity is got and the graph handle compared with the model in full; non-trivial: an upsert or delete hit a linked entity, or a link was made again", genStore, runStore))
	register("S02", Part("bulk against singles", 4000, 80000, "a history brings two stores into one state; then a bulk operation on the one and the single operations on the other, over lists of 0 to 8 (tail: 200) UIDs with repeats and unknown and failing ones (the graph behind both fails for some UIDs); outcome, results and the whole state of both are compared, several times in a row; non-trivial: a list of two or more elements, of which one failed or repeats", genBulk, runBulk))
	register("S04",
		Part("every call", 1200, 20000, "a short history, then one operation, single or bulk, with the k-th call it makes to the graph failing, for every k, before or after the call takes effect, with a plain, wrapped or not-found/duplicate error; the operation must return it, bulk operations stop, and the state be that of a prefix of the elements; non-trivial: the operation makes a failing call after at least one that worked", genFault, runFault),
		Part("random faults", 1500, 30000, "histories of up to 30 operations in which each call to the graph fails with probability up to one half; every operation during which the graph failed must fail, every one that reports success must be visible in the graph; non-trivial: operations failed and succeeded", genFaulty, runFaulty))
}

// SOp is one store operation; Us and V index UIDs.
type SOp struct {
	Op     string             `json:"op"`
	Us     []int              `json:"us"`
	V      int                `json:"v,omitempty"`
	UK     int                `json:"uk,omitempty"`
	Kind   int                `json:"kind,omitempty"`
	Own    map[string]string  `json:"own,omitempty"`
	Attrs  *map[string]string `json:"attrs,omitempty"`
	Upsert bool               `json:"upsert,omitempty"`
	// Same: a bulk add gives the same object for a UID each time
	Same bool `json:"same,omitempty"`
	// Got: adds are of what the store gives for the UID, if it has it
	Got bool `json:"got,omitempty"`
}

// StCase is a history of one store.
type StCase struct {
	Graph string   `json:"graph"` // "", "wdg", "wug"
	UIDs  []string `json:"uids"`
	Ops   []SOp    `json:"ops"`
	UID   string   `json:"uid,omitempty"`
}

var sSingles = []string{"add", "add", "add", "get", "delete", "link", "link", "link", "unlink"}
var sBulks = []string{"bulkadd", "bulkget", "bulkdelete", "bulklink", "bulkunlink"}

func drawSOp(t *rapid.T, kinds []string, maxIdx int) SOp {
	o := SOp{Op: rapid.SampledFrom(kinds).Draw(t, "op"), V: rapid.IntRange(0, maxIdx).Draw(t, "v"), UK: rapid.IntRange(0, 7).Draw(t, "uk")}
	idx := rapid.IntRange(0, maxIdx)
	if strings.HasPrefix(o.Op, "bulk") {
		o.Us = rapid.SliceOfN(idx, 0, 8).Draw(t, "us")
		if len(o.Us) == 8 && rapid.IntRange(0, 3).Draw(t, "many?") == 0 {
			n := pick(t, "many", near(600, 16, 33, 100, 200))
			for len(o.Us) < n {
				o.Us = append(o.Us, len(o.Us))
			}
		}
	} else {
		o.Us = []int{idx.Draw(t, "u")}
	}
	if strings.HasSuffix(o.Op, "add") {
		o.Kind = rapid.IntRange(0, 3).Draw(t, "kind")
		o.Upsert = rapid.IntRange(0, 2).Draw(t, "upsert?") == 0
		o.Same = len(o.Us) > 1 && rapid.Bool().Draw(t, "same?")
		o.Got = rapid.IntRange(0, 7).Draw(t, "got?") == 0
		if rapid.Bool().Draw(t, "own?") {
			o.Own = drawMap(t, "own")
		}
	}
	if strings.HasSuffix(o.Op, "link") && rapid.IntRange(0, 3).Draw(t, "upsert?") == 0 {
		o.Upsert = true // means nothing for links
	}
	if strings.HasSuffix(o.Op, "add") || strings.HasSuffix(o.Op, "link") && !strings.HasSuffix(o.Op, "unlink") {
		if rapid.IntRange(0, 2).Draw(t, "attrs?") == 0 {
			m := drawMap(t, "attrs")
			o.Attrs = &m
		}
	}
	return o
}

func drawStoreStart(t *rapid.T, uids int) []SOp {
	if rapid.IntRange(0, 2).Draw(t, "empty?") == 0 {
		return nil
	}
	o := drawSOp(t, []string{"bulkadd"}, uids-1)
	o.Us = nil
	for i := 0; i < uids; i++ {
		o.Us = append(o.Us, i)
	}
	return append([]SOp{o}, drawList(t, "links", 0, 2*uids, func(t *rapid.T) SOp { return drawSOp(t, []string{"link"}, uids-1) })...)
}

func drawStoreCase(t *rapid.T) StCase {
	c := StCase{Graph: rapid.SampledFrom([]string{"", "", "wdg", "wug"}).Draw(t, "graph"), UIDs: manyUIDs(t, drawUIDs(t, 2, 7))}
	if rapid.Bool().Draw(t, "uid?") {
		c.UID = drawStr(t, "suid")
	}
	return c
}

func genStore(t *rapid.T) StCase {
	c := drawStoreCase(t)
	ks := append(append(append([]string{}, sSingles...), sSingles...), sBulks...)
	c.Ops = append(drawStoreStart(t, len(c.UIDs)), drawList(t, "ops", 0, histLen(t, 40), func(t *rapid.T) SOp { return drawSOp(t, ks, max(6, len(c.UIDs)-1)) })...)
	return c
}

// Store is what the in-memory store offers.
type Store interface {
	UID() uuid.UID
	Add(context.Context, store.Entity, ...store.Option) error
	Get(context.Context, uuid.UID, ...store.Option) (store.Entity, error)
	Delete(context.Context, uuid.UID, ...store.Option) error
	Link(ctx context.Context, from, to uuid.UID, opts ...store.Option) error
	Unlink(ctx context.Context, from, to uuid.UID, opts ...store.Option) error
	BulkAdd(context.Context, []store.Entity, ...store.Option) error
	BulkGet(context.Context, []uuid.UID, ...store.Option) ([]store.Entity, error)
	BulkDelete(context.Context, []uuid.UID, ...store.Option) error
	BulkLink(context.Context, uuid.UID, []uuid.UID, ...store.Option) error
	BulkUnlink(context.Context, uuid.UID, []uuid.UID, ...store.Option) error
}

// sSys is a store with its model.
type sSys struct {
	c    StCase
	s    Store
	h    memgraph.Graph // the graph handle
	h2   memgraph.Graph // one taken after the last operation but one
	m    *gModel
	ver  int
	uids []string
	// poison are UIDs the graph fails for.
	poison map[string]bool

	hits, relinks, upserts, fails int
}

func (s *sSys) uid(i int) string { return s.c.UIDs[i%len(s.c.UIDs)] }

func newSSys(c StCase, wrap func(memgraph.Graph) memgraph.Graph) (*sSys, error) {
	var opts []memstore.Option
	if c.UID != "" {
		opts = append(opts, memstore.WithUID(mkUID(c.UID, len(c.Ops))))
	}
	kind := c.Graph
	if wrap != nil && kind == "" {
		kind = "wug"
	}
	if kind != "" {
		var g memgraph.Graph = newGraph(kind == "wdg")
		if wrap != nil {
			g = wrap(g)
		}
		opts = append(opts, memstore.WithGraph(g))
	}
	st, err := memstore.NewStore(opts...)
	if err != nil {
		return nil, fmt.Errorf("making the store: %v", err)
	}
	if c.UID != "" && uidStr(st.UID()) != c.UID {
		return nil, fmt.Errorf("the store's UID is %q, want %q", uidStr(st.UID()), c.UID)
	}
	h, err := st.Graph()
	if err != nil {
		return nil, fmt.Errorf("the graph handle: %v", err)
	}
	mh, ok := h.(memgraph.Graph)
	if !ok {
		return nil, fmt.Errorf("the graph handle is a %T", h)
	}
	return &sSys{c: c, s: st, h: mh, m: newModel(kind == "wdg"), uids: c.UIDs}, nil
}

// mkEnt makes an entity to store and the model's node for it.
func mkEnt(u, typ string, o SOp) (store.Entity, *gNode) {
	w := &gNode{uid: u, typ: typ, attrs: copyMap(o.Own)}
	if o.Attrs != nil {
		w.attrs = copyMap(*o.Attrs)
	}
	uid, a := mkUID(u, o.UK), mkAttrs(o.Own, o.UK)
	eo := []entity.Option{entity.WithUID(uid), entity.WithAttrs(a)}
	var e store.Entity
	var err error
	switch o.Kind {
	case 0:
		e = tEnt{uid, typ, a}
	case 1:
		e, err = entity.New(typ, eo...)
	case 2:
		e, err = entity.NewResource(typ, "n", "g", "v", "k", true, eo...)
	default:
		e, err = entity.NewObject(typ, "n", "ns", nil, eo...)
	}
	must(err)
	return e, w
}

func sOpts(o SOp) []store.Option {
	var opts []store.Option
	if o.Upsert {
		opts = append(opts, store.WithUpsert())
	}
	if o.Attrs != nil {
		opts = append(opts, store.WithAttrs(mkAttrs(*o.Attrs, o.UK+1)))
	}
	return rot(opts, o.UK)
}

const (
	cOK       = ""
	cNotFound = "not-found"
	cExists   = "already-exists"
	cInjected = "injected"
	cOther    = "some"
)

func class(err error) string {
	switch {
	case err == nil:
		return cOK
	case errors.Is(err, store.ErrEntityNotFound):
		return cNotFound
	case errors.Is(err, store.ErrAlreadyExists):
		return cExists
	case errors.Is(err, errInjected):
		return cInjected
	}
	return cOther
}

// model applies the operation to one element and says what it must give.
// All the edges the model makes are unlearnt: their UIDs are not compared.
func (s *sSys) model(op string, u, v string, o SOp, w *gNode) string {
	if s.poison[u] {
		return cInjected
	}
	switch op {
	case "add":
		old := s.m.nodes[u]
		if old != nil && !o.Upsert {
			return cExists
		}
		if old != nil {
			s.upserts++
			if len(s.m.from(u)) > 0 {
				s.hits++
			}
		}
		s.m.nodes[u] = w
	case "get":
		if s.m.nodes[u] == nil {
			return cNotFound
		}
	case "delete":
		if len(s.m.from(u)) > 0 {
			s.hits++
		}
		s.m.remove(u)
	case "link": // from v to u
		if s.m.nodes[u] == nil || s.m.nodes[v] == nil {
			return cNotFound
		}
		if u == v {
			return cOther
		}
		if s.m.edge(v, u) != nil {
			s.relinks++
			return cOK
		}
		e := &gEdge{from: v, to: u, w: 1, attrs: map[string]string{}}
		if o.Attrs != nil {
			e.attrs = copyMap(*o.Attrs)
		}
		s.m.edges[s.m.key(v, u)] = e
	case "unlink":
		delete(s.m.edges, s.m.key(v, u))
	}
	return cOK
}

// exec runs the operation on the store; ents are the entities made for it.
// sCtxKey marks the contexts of store operations.
type sCtxKey struct{}

func (s *sSys) exec(o SOp, ents []store.Entity) ([]store.Entity, error) {
	ctx := context.WithValue(bg, sCtxKey{}, true)
	var uids []uuid.UID
	for i, u := range o.Us {
		uids = append(uids, mkUID(s.uid(u), o.UK+i))
	}
	v := mkUID(s.uid(o.V), o.UK+1)
	opts := sOpts(o)
	switch o.Op {
	case "add":
		return nil, s.s.Add(ctx, ents[0], opts...)
	case "get":
		e, err := s.s.Get(ctx, uids[0])
		if err != nil {
			return nil, err
		}
		return []store.Entity{e}, nil
	case "delete":
		return nil, s.s.Delete(ctx, uids[0])
	case "link":
		return nil, s.s.Link(ctx, v, uids[0], opts...)
	case "unlink":
		return nil, s.s.Unlink(ctx, v, uids[0])
	case "bulkadd":
		return nil, s.s.BulkAdd(ctx, ents, opts...)
	case "bulkget":
		return s.s.BulkGet(ctx, uids)
	case "bulkdelete":
		return nil, s.s.BulkDelete(ctx, uids)
	case "bulklink":
		return nil, s.s.BulkLink(ctx, v, uids, opts...)
	case "bulkunlink":
		return nil, s.s.BulkUnlink(ctx, v, uids)
	}
	panic("op " + o.Op)
}

func (s *sSys) prepare(o SOp) (ents []store.Entity, wants []*gNode) {
	if strings.HasSuffix(o.Op, "add") {
		first := map[string]int{}
		for i, u := range o.Us {
			s.ver++
			if j, ok := first[s.uid(u)]; ok && o.Same {
				ents, wants = append(ents, ents[j]), append(wants, wants[j])
				continue
			}
			first[s.uid(u)] = i
			if old := s.m.nodes[s.uid(u)]; o.Got && old != nil && !s.poison[s.uid(u)] {
				if e, err := s.s.Get(bg, mkUID(s.uid(u), o.UK)); err == nil {
					w := &gNode{uid: old.uid, typ: old.typ, attrs: copyMap(old.attrs)}
					if o.Attrs != nil {
						w.attrs = copyMap(*o.Attrs)
					}
					ents, wants = append(ents, e), append(wants, w)
					continue
				}
			}
			x := o
			x.Kind += i
			e, w := mkEnt(s.uid(u), fmt.Sprintf("v%d", s.ver), x)
			ents, wants = append(ents, e), append(wants, w)
		}
	}
	return
}

// modelOp applies the operation to the model, element by element up to the
// first that fails, and gives the class of its error.
func (s *sSys) modelOp(o SOp, wants []*gNode) string {
	for i, u := range o.Us {
		var w *gNode
		if wants != nil {
			w = wants[i]
		}
		if c := s.model(strings.TrimPrefix(o.Op, "bulk"), s.uid(u), s.uid(o.V), o, w); c != cOK {
			s.fails++
			return c
		}
	}
	return cOK
}

func checkClass(what, want string, err error) error {
	got := class(err)
	if got == want || want == cOther && err != nil {
		return nil
	}
	if want == cOK {
		return fmt.Errorf("%s: %v", what, err)
	}
	return fmt.Errorf("%s: error %v; want the %s error", what, err, want)
}

func (s *sSys) checkGot(what string, o SOp, got []store.Entity) error {
	if len(got) != len(o.Us) {
		return fmt.Errorf("%s: got %d entities for %d UIDs", what, len(got), len(o.Us))
	}
	for i, e := range got {
		if err := s.checkEnt(fmt.Sprintf("%s: entity %d", what, i), e, s.uid(o.Us[i])); err != nil {
			return err
		}
	}
	return nil
}

func (s *sSys) checkEnt(what string, e store.Entity, u string) error {
	w := s.m.nodes[u]
	if e == nil {
		return fmt.Errorf("%s is nil, want %q", what, u)
	}
	if e.Type() != w.typ || uidStr(e.UID()) != u {
		return fmt.Errorf("%s has UID %q and type %q, want %q and %q", what, uidStr(e.UID()), e.Type(), u, w.typ)
	}
	return wantAttrs(what, e.Attrs(), w.attrs)
}

func (s *sSys) step(o SOp) error {
	ents, wants := s.prepare(o)
	got, err := s.exec(o, ents)
	want := s.modelOp(o, wants)
	what := fmt.Sprintf("%s %v (%d)", o.Op, o.Us, o.V)
	if err := checkClass(what, want, err); err != nil {
		return err
	}
	if want == cOK && strings.HasSuffix(o.Op, "get") {
		return s.checkGot(what, o, got)
	}
	return nil
}

// check compares the whole store with the model.
func (s *sSys) check() error {
	for i, u := range s.uids {
		if s.poison[u] {
			continue
		}
		e, err := s.s.Get(bg, mkUID(u, i))
		if s.m.nodes[u] == nil {
			if !errors.Is(err, store.ErrEntityNotFound) {
				return fmt.Errorf("getting %q, which is not stored: error %v; want the not-found error", u, err)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("getting %q: %v", u, err)
		}
		if err := s.checkEnt(fmt.Sprintf("entity %q", u), e, u); err != nil {
			return err
		}
	}
	if err := checkGraph(s.h, s.m, s.uids, anyUID); err != nil {
		return fmt.Errorf("the graph handle: %v", err)
	}
	if s.h2 != nil && s.h2 != s.h {
		if err := checkGraph(s.h2, s.m, s.uids, anyUID); err != nil {
			return fmt.Errorf("a graph handle taken later: %v", err)
		}
	}
	h, err := s.s.(interface{ Graph() (graph.Graph, error) }).Graph()
	if err != nil {
		return fmt.Errorf("taking a graph handle: %v", err)
	}
	if s.h2, _ = h.(memgraph.Graph); s.h2 == nil {
		return fmt.Errorf("the graph handle is a %T", h)
	}
	return nil
}

func runStore(c StCase, r *R) error {
	s, err := newSSys(c, nil)
	if err != nil {
		return err
	}
	for i, o := range c.Ops {
		if err := s.step(o); err != nil {
			return fmt.Errorf("op %d: %v", i, err)
		}
		if err := s.check(); err != nil {
			return fmt.Errorf("after op %d (%s %v %d): %v", i, o.Op, o.Us, o.V, err)
		}
	}
	r.Label("graph " + c.Graph)
	r.LabelIf(s.upserts > 0, "upsert of a stored entity")
	r.LabelIf(s.hits > 0, "upsert or delete of a linked entity")
	r.LabelIf(s.relinks > 0, "link of linked entities")
	if s.hits > 0 || s.relinks > 0 {
		r.NonTrivial()
	}
	return nil
}

// faultGraph is a graph whose calls can be made to fail.
type faultGraph struct {
	memgraph.Graph
	// fault is asked before each call; an error makes it fail, after it
	// took effect if late.
	fault func(method string, us ...string) (err error, late bool)
	// natural is set when a call that was to fail late failed by itself.
	natural bool
	// own checks that calls are made under the context of a store operation;
	// foreign is one that was not.
	own     bool
	foreign string
	// around, if not nil, performs the call.
	around func(method string, f func() error) error
}

func (g *faultGraph) under(ctx context.Context, method string) {
	if g.own && (ctx == nil || ctx.Value(sCtxKey{}) == nil) {
		g.foreign = method
	}
}

func (g *faultGraph) do(method string, f func() error, us ...uuid.UID) error {
	var ss []string
	for _, u := range us {
		ss = append(ss, uidStr(u))
	}
	ferr, late := g.fault(method, ss...)
	if g.around != nil {
		call := f
		f = func() error { return g.around(method, call) }
	}
	if ferr == nil || late {
		if err := f(); err != nil {
			if ferr != nil { // no write otherwise: the graph may be shared
				g.natural = true
			}
			return err
		}
	}
	return ferr
}

func (g *faultGraph) NewNode(ctx context.Context, e graph.Entity, opts ...graph.Option) (n graph.Node, err error) {
	g.under(ctx, "NewNode")
	err = g.do("NewNode", func() (e2 error) { n, e2 = g.Graph.NewNode(ctx, e, opts...); return }, e.UID())
	if err != nil {
		return nil, err
	}
	return n, nil
}

func (g *faultGraph) AddNode(ctx context.Context, n graph.Node, opts ...graph.Option) error {
	g.under(ctx, "AddNode")
	return g.do("AddNode", func() error { return g.Graph.AddNode(ctx, n, opts...) }, n.UID())
}

func (g *faultGraph) RemoveNode(ctx context.Context, u uuid.UID, opts ...graph.Option) error {
	g.under(ctx, "RemoveNode")
	return g.do("RemoveNode", func() error { return g.Graph.RemoveNode(ctx, u, opts...) }, u)
}

func (g *faultGraph) Node(ctx context.Context, u uuid.UID) (n graph.Node, err error) {
	g.under(ctx, "Node")
	err = g.do("Node", func() (e error) { n, e = g.Graph.Node(ctx, u); return }, u)
	if err != nil {
		return nil, err
	}
	return n, nil
}

func (g *faultGraph) Link(ctx context.Context, u, v uuid.UID, opts ...graph.Option) (e graph.Edge, err error) {
	g.under(ctx, "Link")
	err = g.do("Link", func() (e2 error) { e, e2 = g.Graph.Link(ctx, u, v, opts...); return }, v, u)
	if err != nil {
		return nil, err
	}
	return e, nil
}

func (g *faultGraph) Unlink(ctx context.Context, u, v uuid.UID, opts ...graph.Option) error {
	g.under(ctx, "Unlink")
	return g.do("Unlink", func() error { return g.Graph.Unlink(ctx, u, v, opts...) }, v, u)
}

func (g *faultGraph) Nodes(ctx context.Context) (ns []graph.Node, err error) {
	g.under(ctx, "Nodes")
	err = g.do("Nodes", func() (e error) { ns, e = g.Graph.Nodes(ctx); return })
	if err != nil {
		return nil, err
	}
	return ns, nil
}

func (g *faultGraph) Edges(ctx context.Context) (es []graph.Edge, err error) {
	g.under(ctx, "Edges")
	err = g.do("Edges", func() (e error) { es, e = g.Graph.Edges(ctx); return })
	if err != nil {
		return nil, err
	}
	return es, nil
}

func (g *faultGraph) Edge(ctx context.Context, u, v uuid.UID) (e graph.Edge, err error) {
	g.under(ctx, "Edge")
	err = g.do("Edge", func() (e2 error) { e, e2 = g.Graph.Edge(ctx, u, v); return }, v, u)
	if err != nil {
		return nil, err
	}
	return e, nil
}

func (g *faultGraph) From(ctx context.Context, u uuid.UID) (ns []graph.Node, err error) {
	g.under(ctx, "From")
	err = g.do("From", func() (e error) { ns, e = g.Graph.From(ctx, u); return }, u)
	if err != nil {
		return nil, err
	}
	return ns, nil
}

func (g *faultGraph) SubGraph(ctx context.Context, u uuid.UID, d int, opts ...graph.Option) (sg graph.Graph, err error) {
	g.under(ctx, "SubGraph")
	err = g.do("SubGraph", func() (e error) { sg, e = g.Graph.SubGraph(ctx, u, d, opts...); return }, u)
	if err != nil {
		return nil, err
	}
	return sg, nil
}

// BCase compares bulk operations with single ones.
type BCase struct {
	StCase
	Bulk   []SOp `json:"bulk"`
	Poison []int `json:"poison"`
	// Err is the kind of error the graph gives for the poisoned ones
	Err string `json:"err,omitempty"`
}

// poisonErrs are errors of a graph.
var poisonErrs = map[string]error{
	"":            fmt.Errorf("graph: %w", errInjected),
	"node":        graph.ErrNodeNotFound,
	"edge":        fmt.Errorf("graph: %w", graph.ErrEdgeNotExist),
	"duplicate":   graph.ErrDuplicateNode,
	"missing":     store.ErrEntityNotFound,
	"exists":      store.ErrAlreadyExists,
	"cancelled":   context.Canceled,
	"unsupported": graph.ErrUnsupported,
}

func genBulk(t *rapid.T) BCase {
	c := BCase{StCase: drawStoreCase(t)}
	n := len(c.UIDs)
	for rapid.IntRange(0, 5).Draw(t, "more?") == 5 && n < 60 { // sometimes many UIDs
		for i := 0; i < 20; i++ {
			c.UIDs = append(c.UIDs, fmt.Sprintf("more-%d", n+i))
		}
		n = len(c.UIDs)
	}
	top := n - 1
	c.Ops = append(drawStoreStart(t, n), drawList(t, "ops", 0, 8, func(t *rapid.T) SOp { return drawSOp(t, sSingles, top) })...)
	c.Bulk = drawList(t, "bulk", 1, 5, func(t *rapid.T) SOp { return drawSOp(t, sBulks, top) })
	if rapid.IntRange(0, 2).Draw(t, "poison?") == 0 {
		c.Poison = rapid.SliceOfN(rapid.IntRange(0, top), 0, 2).Draw(t, "poison")
		c.Err = pick(t, "err", append(sortedKeys(poisonErrs), "", ""))
	}
	return c
}

func runBulk(c BCase, r *R) error {
	poison := map[string]bool{}
	armed := false
	wrap := func(g memgraph.Graph) memgraph.Graph {
		return &faultGraph{Graph: g, fault: func(m string, us ...string) (error, bool) {
			if armed && len(us) > 0 && poison[us[0]] {
				return poisonErrs[c.Err], false
			}
			return nil, false
		}}
	}
	a, err := newSSys(c.StCase, wrap)
	if err != nil {
		return err
	}
	b, err := newSSys(c.StCase, wrap)
	if err != nil {
		return err
	}
	for i, o := range c.Ops {
		for _, s := range []*sSys{a, b} {
			if err := s.step(o); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		}
	}
	for _, p := range c.Poison {
		poison[a.uid(p)] = true
	}
	for i, o := range c.Bulk {
		what := fmt.Sprintf("bulk operation %d (%s %v %d)", i, o.Op, o.Us, o.V)
		single := strings.TrimPrefix(o.Op, "bulk")
		armed = true
		ents, _ := a.prepare(o)
		gotA, errA := a.exec(o, ents)
		var gotB []store.Entity
		var errB error
		b.ver = a.ver - len(ents)
		entsB, _ := b.prepare(o)
		seen := map[int]bool{}
		repeats, n := false, 0
		for j, u := range o.Us {
			x := o
			x.Op, x.Us, x.UK = single, []int{u}, o.UK
			var e []store.Entity
			if entsB != nil {
				e = entsB[j : j+1]
			}
			var got []store.Entity
			got, errB = b.exec(x, e)
			n++
			repeats = repeats || seen[u%len(c.UIDs)]
			seen[u%len(c.UIDs)] = true
			if errB != nil {
				break
			}
			gotB = append(gotB, got...)
		}
		armed = false
		if ca, cb := class(errA), class(errB); ca != cb || errors.Is(errA, poisonErrs[c.Err]) != errors.Is(errB, poisonErrs[c.Err]) {
			return fmt.Errorf("%s: error %v; the single operations in order: error %v, at element %d", what, errA, errB, n-1)
		}
		if errB == nil && single == "get" {
			if len(gotA) != len(gotB) {
				return fmt.Errorf("%s: %d entities; the single operations give %d", what, len(gotA), len(gotB))
			}
			for j := range gotA {
				if gotA[j] == nil || uidStr(gotA[j].UID()) != uidStr(gotB[j].UID()) || gotA[j].Type() != gotB[j].Type() {
					return fmt.Errorf("%s: entity %d is %v; the single operation gives %v", what, j, gotA[j], gotB[j])
				}
				m, err := readAttrs(gotB[j].Attrs())
				if err != nil {
					return err
				}
				if err := wantAttrs(fmt.Sprintf("%s: entity %d", what, j), gotA[j].Attrs(), m); err != nil {
					return err
				}
			}
		}
		sa, err := observe(a.h)
		if err != nil {
			return err
		}
		sb, err := observe(b.h)
		if err != nil {
			return err
		}
		if sa != sb {
			return fmt.Errorf("%s: the stores differ afterwards:\nbulk:    %s\nsingles: %s", what, clip(sa, 1500), clip(sb, 1500))
		}
		if len(o.Us) > 1 && (repeats || errB != nil) {
			r.NonTrivial()
		}
		r.LabelIf(errB != nil && n > 1, "failed after the first element")
		r.LabelIf(repeats, "repeats")
		r.LabelIf(len(o.Us) > 10, "many")
		r.LabelIf(class(errB) == cInjected, "graph failed")
		r.LabelIf(errors.Is(errB, poisonErrs[c.Err]) && class(errB) != cInjected, "graph failed with another error")
		r.Label(o.Op)
	}
	return nil
}

// observe writes down everything the graph shows, UIDs of edges aside.
func observe(g memgraph.Graph) (string, error) {
	ns, err := g.Nodes(bg)
	if err != nil {
		return "", err
	}
	var out []string
	for _, n := range ns {
		m, err := readAttrs(n.Attrs())
		if err != nil {
			return "", err
		}
		typ := ""
		if t, ok := n.(interface{ Type() string }); ok {
			typ = t.Type()
		}
		fs, err := g.From(bg, n.UID())
		if err != nil {
			return "", err
		}
		var from []string
		for _, f := range fs {
			from = append(from, uidStr(f.UID()))
		}
		sort.Strings(from)
		out = append(out, fmt.Sprintf("node %q %q %q -> %q", uidStr(n.UID()), typ, m, from))
	}
	es, err := g.Edges(bg)
	if err != nil {
		return "", err
	}
	for _, e := range es {
		f, _ := e.FromNode()
		t, _ := e.ToNode()
		m, err := readAttrs(e.Attrs())
		if err != nil {
			return "", err
		}
		out = append(out, fmt.Sprintf("edge %q %q %v %q", uidStr(f.UID()), uidStr(t.UID()), e.Weight(), m))
	}
	sort.Strings(out)
	return strings.Join(out, "\n"), nil
}

// FtCase is an operation whose graph calls fail one by one.
type FtCase struct {
	StCase
	Target SOp    `json:"target"`
	Err    string `json:"err"`
	Late   bool   `json:"late"`
}

func genFault(t *rapid.T) FtCase {
	c := FtCase{StCase: drawStoreCase(t)}
	n := len(c.UIDs)
	c.Ops = append(drawStoreStart(t, n), drawList(t, "ops", 0, 5, func(t *rapid.T) SOp { return drawSOp(t, sSingles, n-1) })...)
	c.Target = drawSOp(t, append(append([]string{}, sSingles...), append(sBulks, sBulks...)...), n-1)
	if len(c.Target.Us) > 12 {
		c.Target.Us = c.Target.Us[:12]
	}
	c.Err = rapid.SampledFrom([]string{"plain", "wrapped", "counterpart", "wrapped counterpart", "cancelled", "deadline", "eof", "unsupported", "invalid", "store"}).Draw(t, "err")
	c.Late = rapid.IntRange(0, 3).Draw(t, "late?") == 3
	return c
}

// injectedFor is the error to inject into a call of an operation, and the
// one the operation may return instead.
func injectedFor(kind, op, method string) (inject, also error) {
	switch kind {
	case "wrapped":
		return fmt.Errorf("backend: %w", errInjected), nil
	case "cancelled":
		return fmt.Errorf("backend: %w", context.Canceled), nil
	case "deadline":
		return context.DeadlineExceeded, nil
	case "eof":
		return io.EOF, nil
	case "unsupported":
		return graph.ErrUnsupported, store.ErrUnsupported
	case "invalid":
		return graph.ErrInvalidNode, nil
	case "store":
		return store.ErrNotImplemented, nil
	case "counterpart", "wrapped counterpart":
		wrap := func(e error) error {
			if kind == "counterpart" {
				return e
			}
			return fmt.Errorf("backend: %w", e)
		}
		switch op + "/" + method {
		case "get/Node", "bulkget/Node", "link/Link", "bulklink/Link":
			return wrap(graph.ErrNodeNotFound), store.ErrEntityNotFound
		case "add/AddNode", "bulkadd/AddNode":
			return wrap(graph.ErrDuplicateNode), store.ErrAlreadyExists
		}
	}
	return errInjected, nil
}

func runFault(c FtCase, r *R) error {
	for k := 1; k < 100; k++ {
		calls, hit, on := 0, "", false
		var inject, also error
		var after []string
		var fg *faultGraph
		s, err := newSSys(c.StCase, func(g memgraph.Graph) memgraph.Graph {
			fg = &faultGraph{Graph: g, fault: func(m string, us ...string) (error, bool) {
				if !on {
					return nil, false
				}
				calls++
				if hit != "" {
					after = append(after, fmt.Sprintf("%s %q", m, us))
				}
				if calls == k {
					hit = m
					inject, also = injectedFor(c.Err, c.Target.Op, m)
					return inject, c.Late
				}
				return nil, false
			}}
			return fg
		})
		if err != nil {
			return err
		}
		for i, o := range c.Ops {
			if err := s.step(o); err != nil {
				return fmt.Errorf("op %d: %v", i, err)
			}
		}
		ents, wants := s.prepare(c.Target)
		on, fg.own = true, true
		got, err := s.exec(c.Target, ents)
		on, fg.own = false, false
		what := fmt.Sprintf("%s %v (%d) with call %d to the graph (%s) failing", c.Target.Op, c.Target.Us, c.Target.V, k, hit)
		if fg.foreign != "" {
			return fmt.Errorf("%s: %s of the graph was called under a context without the values of the caller's", what, fg.foreign)
		}
		if hit == "" { // fewer than k calls: this is the run without a fault
			if k > 1 {
				r.NonTrivial()
			}
			want := s.modelOp(c.Target, wants)
			if err := checkClass(c.Target.Op, want, err); err != nil {
				return err
			}
			return s.check()
		}
		if fg.natural {
			// the call failed by itself, before the fault could be delivered:
			// the operation is as without one
			r.Label("fault not delivered")
			want := s.modelOp(c.Target, wants)
			if err := checkClass(c.Target.Op, want, err); err != nil {
				return fmt.Errorf("%s by itself: %v", what, err)
			}
			if err := s.check(); err != nil {
				return fmt.Errorf("%s by itself: %v", what, err)
			}
			continue
		}
		r.Label("fault in " + hit)
		if err == nil {
			return fmt.Errorf("%s: reported success", what)
		}
		if !errors.Is(err, inject) && !(inject == errInjected && errors.Is(err, errInjected)) && (also == nil || !errors.Is(err, also)) {
			return fmt.Errorf("%s: the error returned, %v, does not identify %v", what, err, inject)
		}
		if len(got) > 0 {
			return fmt.Errorf("%s: returned entities along with the error", what)
		}
		// the state is that after some number of the elements, the one the
		// fault hit included only if the call took effect
		match, last := -1, error(nil)
		base := s.m.clone()
		for n := 0; n <= len(c.Target.Us) && match < 0; n++ {
			s.m = base.clone()
			x := c.Target
			x.Us = x.Us[:n]
			var w []*gNode
			if wants != nil {
				w = wants[:n]
			}
			if s.modelOp(x, w) != cOK {
				break
			}
			if last = s.check(); last == nil {
				match = n
			}
		}
		if match < 0 {
			return fmt.Errorf("%s: the store is not as after a prefix of the elements: %v", what, last)
		}
		if match == len(c.Target.Us) && !c.Late && changes(base, s.m) {
			return fmt.Errorf("%s: all the elements took effect", what)
		}
		// nothing goes on to elements after the failing one
		done := map[string]bool{}
		reads := strings.HasSuffix(c.Target.Op, "get")
		for _, call := range after {
			if strings.HasPrefix(call, "Node") && !reads {
				continue
			}
			done[call] = true
		}
		if strings.HasPrefix(c.Target.Op, "bulk") && len(done) > 0 {
			return fmt.Errorf("%s: went on with %q", what, sortedKeys(done))
		}
	}
	return nil
}

func changes(a, b *gModel) bool {
	if len(a.nodes) != len(b.nodes) || len(a.edges) != len(b.edges) {
		return true
	}
	for u, n := range a.nodes {
		if b.nodes[u] == nil || b.nodes[u].typ != n.typ {
			return true
		}
	}
	for k := range a.edges {
		if b.edges[k] == nil {
			return true
		}
	}
	return false
}

// FyCase is a history over a graph that fails at random calls.
type FyCase struct {
	StCase
	Faults []bool `json:"faults"` // used up call by call
}

func genFaulty(t *rapid.T) FyCase {
	c := FyCase{StCase: drawStoreCase(t)}
	n := len(c.UIDs)
	ks := append(append(append([]string{}, sSingles...), sSingles...), sBulks...)
	c.Ops = append(drawStoreStart(t, n), drawList(t, "ops", 0, 30, func(t *rapid.T) SOp { return drawSOp(t, ks, n-1) })...)
	p := rapid.SampledFrom([]int{1, 3, 7, 15}).Draw(t, "p")
	c.Faults = drawList(t, "faults", 0, 120, func(t *rapid.T) bool { return rapid.IntRange(0, p).Draw(t, "f") == p })
	return c
}

func runFaulty(c FyCase, r *R) error {
	var hits []string
	calls, on := 0, false
	var fg *faultGraph
	s, err := newSSys(c.StCase, func(g memgraph.Graph) memgraph.Graph {
		fg = &faultGraph{Graph: g, fault: func(m string, us ...string) (error, bool) {
			if !on {
				return nil, false
			}
			calls++
			if calls <= len(c.Faults) && c.Faults[calls-1] {
				hits = append(hits, m)
				return errInjected, false
			}
			return nil, false
		}}
		return fg
	})
	if err != nil {
		return err
	}
	failed, worked := 0, 0
	for i, o := range c.Ops {
		hits = nil
		ents, wants := s.prepare(o)
		on, fg.own = true, true
		_, err := s.exec(o, ents)
		on, fg.own = false, false
		what := fmt.Sprintf("op %d (%s %v %d)", i, o.Op, o.Us, o.V)
		if fg.foreign != "" {
			return fmt.Errorf("%s: %s of the graph was called under a context without the values of the caller's", what, fg.foreign)
		}
		if len(hits) > 0 {
			failed++
			if !errors.Is(err, errInjected) {
				return fmt.Errorf("%s: the graph failed in %q, the operation returned %v", what, hits, err)
			}
			// resynchronise: the state is that after some prefix
			base, ok := s.m.clone(), false
			for n := 0; n <= len(o.Us) && !ok; n++ {
				s.m = base.clone()
				x := o
				x.Us = x.Us[:n]
				var w []*gNode
				if wants != nil {
					w = wants[:n]
				}
				if s.modelOp(x, w) != cOK {
					break
				}
				ok = s.check() == nil
			}
			if !ok {
				return fmt.Errorf("%s: after a failure in %q the store is not as after a prefix of the elements", what, hits)
			}
			continue
		}
		want := s.modelOp(o, wants)
		if err := checkClass(what, want, err); err != nil {
			return err
		}
		if err == nil {
			worked++
		}
		if err := s.check(); err != nil {
			return fmt.Errorf("after %s, which reported %v: %v", what, err, err)
		}
	}
	if failed > 0 && worked > 0 {
		r.NonTrivial()
	}
	return nil
}

var _ attrs.Attrs
var _ = memattrs.New
