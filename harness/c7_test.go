package harness

import (
	"context"
	"fmt"
	"runtime"
	"sync"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/marshal"
	"gonum.org/v1/gonum/graph/encoding"
	"pgregory.net/rapid"
)

// One marshaler serves all users of a broker, one entity may be in several
// graphs, stores and messages at once: reading has no side effects.

func init() {
	register("C07",
		Part("shared", 3000, 60000, "two to four goroutines marshal, unmarshal, convert, copy and read two to five shared values (among them graph nodes and edges of them) with one shared codec; each result is compared with the value, and at the end all values are read and marshalled again; non-trivial: two goroutines used the same value, or the codec, at least twice", genShare(false), runShare),
		Part("amid", 6000, 120000, "one use of the codec or of a value is stopped in the middle (an attribute source of the harness's own) while others are carried out; non-trivial: one was stopped amid", genShare(true), runShare))
}

// ShCase is a set of shared values and what each goroutine does with them.
type ShCase struct {
	Vals []Val    `json:"vals"`
	Work [][]ShOp `json:"work"`
	// Amid: the first goroutine's operations stop at the n-th read of an
	// attribute source, while the others' are carried out one by one.
	Amid int `json:"amid,omitempty"`
}

// ShOp is one use of value V.
type ShOp struct {
	Op string `json:"op"`
	V  int    `json:"v"`
}

var shOps = []string{"marshal", "marshal", "marshal", "unmarshal", "unmarshal", "unmarshal", "entity", "struct", "struct", "read", "copy", "dot", "node", "edge", "bad"}

func genShare(amid bool) func(*rapid.T) ShCase {
	return func(t *rapid.T) ShCase {
		c := ShCase{Vals: drawList(t, "values", 2, 5, drawAnyVal)}
		op := func(t *rapid.T) ShOp {
			return ShOp{pick(t, "op", shOps), uni(t, len(c.Vals), "v")}
		}
		if amid {
			first := op(t)
			c.Amid = 1 + uni(t, 1+len(c.Vals[first.V].Attrs), "amid")
			first.Op = pick(t, "first", []string{"marshal", "marshal", "marshal", "struct", "copy", "read"})
			c.Work = [][]ShOp{{first}, drawList(t, "meanwhile", 1, 4, op)}
			return c
		}
		n := 2 + uni(t, 3, "workers")
		for i := 0; i < n; i++ {
			c.Work = append(c.Work, drawList(t, "ops", 1, 8, op))
		}
		return c
	}
}

// stopAttrs is an attribute source that runs f at its n-th use.
type stopAttrs struct {
	attrs.Attrs
	stop *stopper
}

type stopper struct {
	mu sync.Mutex
	n  int
	f  func()
}

func (s *stopper) hit() {
	if s == nil {
		runtime.Gosched()
		return
	}
	s.mu.Lock()
	s.n--
	f := s.f
	if s.n == 0 {
		s.f = nil
	} else {
		f = nil
	}
	s.mu.Unlock()
	if f != nil {
		f()
	}
}

func (a stopAttrs) Keys(ctx context.Context) ([]string, error) {
	a.stop.hit()
	return a.Attrs.Keys(ctx)
}

func (a stopAttrs) Get(ctx context.Context, k string) (string, error) {
	a.stop.hit()
	return a.Attrs.Get(ctx, k)
}

func eqDOT(a []encoding.Attribute, want map[string]string) bool {
	got := map[string]string{}
	for _, x := range a {
		got[x.Key] = x.Value
	}
	return len(a) == len(want) && eqMap(got, want)
}

func runShare(c ShCase, r *R) error {
	if len(c.Vals) == 0 || c.Amid > 0 && (len(c.Work) < 2 || len(c.Work[0]) == 0) {
		return nil
	}
	m := marshaler()
	type shared struct {
		v    Val
		x    any
		doc  []byte
		dot  string
		node *memgraph.Node
		edge *memgraph.Edge
		ndot string // the node's DOT ID
	}
	var stop *stopper
	vals := make([]shared, len(c.Vals))
	// nothing is asked of the shared values before the goroutines do: what
	// they should say is asked of twins
	for i, v := range c.Vals {
		v.label(r)
		s := shared{v: v}
		mk := func() (any, *memgraph.Node, *memgraph.Edge, error) {
			var x any
			if c.Amid > 0 && i == c.Work[0][0].V%len(c.Vals) {
				// this one is stopped; only the harness's own types are known
				// to keep the attribute source they were given
				if stop == nil {
					stop = &stopper{}
				}
				v.Impl = 1
				x = v.buildWith(stopAttrs{v.attrs(), stop}, nil)
			} else if v.Impl == 1 {
				x = v.buildWith(stopAttrs{v.attrs(), nil}, nil)
			} else {
				x = v.build()
			}
			e, ok := x.(space.Entity)
			if !ok || v.Kind == kLink {
				return x, nil, nil, nil
			}
			n, err := memgraph.NewNode(int64(i), e, graph.WithAttrs(mkAttrs(v.Attrs, 0)))
			if err != nil {
				return nil, nil, nil, err
			}
			ed, err := memgraph.NewEdge(n, n, graph.WithAttrs(mkAttrs(v.Attrs, 1)), graph.WithWeight(1.5), graph.WithDOTID("e"))
			return x, n, ed, err
		}
		x, n, _, err := mk()
		if err != nil {
			return err
		}
		if s.doc, err = marshaler().Marshal(x); err != nil {
			return fmt.Errorf("marshalling %s %d: %v", v.Kind, i, err)
		}
		if d, ok := x.(interface{ DOTID() string }); ok {
			s.dot = d.DOTID()
		}
		if n != nil {
			s.ndot = n.DOTID()
		}
		if s.x, s.node, s.edge, err = mk(); err != nil {
			return err
		}
		vals[i] = s
	}
	do := func(o ShOp) error {
		s := &vals[o.V%len(vals)]
		v := s.v
		what := fmt.Sprintf("%s of %s %d", o.Op, v.Kind, o.V%len(vals))
		switch o.Op {
		case "marshal":
			b, err := m.Marshal(s.x)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			runtime.Gosched()
			n, err := readJSON(b)
			if err == nil {
				err = v.matches(n)
			}
			if err != nil {
				return fmt.Errorf("%s: %s: %v", what, clip(string(b), 400), err)
			}
		case "unmarshal":
			x, err := unmarshalInto(m, v.Kind, s.doc, nil)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			runtime.Gosched()
			if err := v.same(what, x); err != nil {
				return err
			}
			// what came out is this goroutine's own
			if err := x.(interface{ Attrs() attrs.Attrs }).Attrs().Set(bg, "mine", "x"); err != nil {
				return err
			}
		case "entity":
			if v.Kind == kLink {
				return nil
			}
			v.Kind = kEntity
			x, err := unmarshalInto(m, kEntity, s.doc, nil)
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			return v.same(what, x)
		case "bad":
			if _, err := unmarshalInto(m, v.Kind, s.doc[:len(s.doc)/2], nil); err == nil {
				return fmt.Errorf("%s: half a document was accepted", what)
			}
			if _, err := m.Marshal(o); err == nil {
				return fmt.Errorf("%s: a foreign value was marshalled", what)
			}
		case "struct":
			return shStruct(what, v, s.x)
		case "read":
			return v.same(what, s.x)
		case "copy":
			a, err := memattrs.NewCopyFrom(bg, s.x.(interface{ Attrs() attrs.Attrs }).Attrs())
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := wantAttrs(what, a, v.Attrs); err != nil {
				return err
			}
			return a.Set(bg, "mine", "x")
		case "dot":
			if d, ok := s.x.(interface{ DOTID() string }); ok {
				if got := d.DOTID(); got != s.dot {
					return fmt.Errorf("%s: is %q, was %q", what, got, s.dot)
				}
			}
			if !eqDOT(memattrs.DOTAttrs(s.x.(interface{ Attrs() attrs.Attrs }).Attrs()), v.Attrs) {
				return fmt.Errorf("%s: the DOT attributes are not those of the value", what)
			}
		case "node":
			if s.node == nil {
				return nil
			}
			if got, want := s.node.DOTID(), s.ndot; got != want {
				return fmt.Errorf("%s: the DOT ID is %q, want %q", what, got, want)
			}
			if !eqDOT(s.node.Attributes(), v.Attrs) {
				return fmt.Errorf("%s: DOT attributes %v", what, s.node.Attributes())
			}
			return wantAttrs(what, s.node.Attrs(), v.Attrs)
		case "edge":
			if s.edge == nil {
				return nil
			}
			if s.edge.Weight() != 1.5 || s.edge.DOTID() != "e" || !eqDOT(s.edge.Attributes(), v.Attrs) {
				return fmt.Errorf("%s: weight %v, DOT ID %q, DOT attributes %v", what, s.edge.Weight(), s.edge.DOTID(), s.edge.Attributes())
			}
			f, err := s.edge.FromNode()
			if err != nil || uidStr(f.UID()) != v.UID {
				return fmt.Errorf("%s: begins at %v (%v)", what, f, err)
			}
			x, ok := s.edge.ReversedEdge().(*memgraph.Edge)
			if !ok || x.Weight() != 1.5 || uidStr(x.UID()) != "e" {
				return fmt.Errorf("%s: the reversed edge is %v", what, x)
			}
		}
		return nil
	}
	if c.Amid > 0 && stop != nil {
		first := c.Work[0][0]
		var late []chan error
		stop.mu.Lock()
		stop.n = c.Amid
		stop.f = func() {
			r.NonTrivial()
			r.Label("stopped in " + first.Op)
			for _, o := range c.Work[1] {
				done := make(chan error, 1)
				go func() { done <- safely(func() error { return do(o) }) }()
				// it may have to wait for the one that is stopped
				for i := 0; i < 200 && len(done) == 0; i++ {
					runtime.Gosched()
				}
				late = append(late, done)
			}
		}
		stop.mu.Unlock()
		if err := do(first); err != nil {
			return fmt.Errorf("the one stopped: %v", err)
		}
		stop.mu.Lock()
		stop.f = nil
		stop.mu.Unlock()
		var err error
		for _, ch := range late {
			if e := <-ch; err == nil {
				err = e
			}
		}
		if err != nil {
			return fmt.Errorf("meanwhile: %v", err)
		}
	} else {
		errs := make([]error, len(c.Work))
		uses := map[int]int{}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for w, ops := range c.Work {
			seen := map[int]bool{}
			for _, o := range ops {
				if !seen[o.V] {
					uses[o.V]++
					seen[o.V] = true
				}
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				errs[w] = safely(func() error {
					for _, o := range ops {
						if err := do(o); err != nil {
							return err
						}
					}
					return nil
				})
			}()
		}
		close(gate)
		wg.Wait()
		for w, err := range errs {
			if err != nil {
				return fmt.Errorf("goroutine %d: %v", w, err)
			}
		}
		for _, n := range uses {
			if n > 1 {
				r.NonTrivial()
			}
		}
	}
	for i, s := range vals {
		if err := s.v.same(fmt.Sprintf("%s %d afterwards", s.v.Kind, i), s.x); err != nil {
			return err
		}
		b, err := m.Marshal(s.x)
		if err != nil {
			return fmt.Errorf("marshalling %s %d afterwards: %v", s.v.Kind, i, err)
		}
		n, err := readJSON(b)
		if err == nil {
			err = s.v.matches(n)
		}
		if err != nil {
			return fmt.Errorf("marshalling %s %d afterwards: %s: %v", s.v.Kind, i, clip(string(b), 400), err)
		}
		if d, ok := s.x.(interface{ DOTID() string }); ok && d.DOTID() != s.dot {
			return fmt.Errorf("%s %d has the DOT ID %q, had %q", s.v.Kind, i, d.DOTID(), s.dot)
		}
	}
	return nil
}

// shStruct converts x to its wire struct and back.
func shStruct(what string, v Val, x any) error {
	var back any
	var w any
	var err error
	switch v.Kind {
	case kEntity:
		var e *marshal.Entity
		if e, err = marshal.EntityFromSpace(x.(space.Entity)); err == nil {
			w = e
			back, err = marshal.EntityToSpace(*e)
		}
	case kResource:
		var e *marshal.Resource
		if e, err = marshal.ResourceFromSpace(x.(space.Resource)); err == nil {
			w = e
			back, err = marshal.ResourceToSpace(*e)
		}
	case kObject:
		var e *marshal.Object
		if e, err = marshal.ObjectFromSpace(x.(space.Object)); err == nil {
			w = e
			back, err = marshal.ObjectToSpace(*e)
		}
	case kLink:
		var e *marshal.Link
		if e, err = marshal.LinkFromSpace(x.(space.Link)); err == nil {
			w = e
			back, err = marshal.LinkToSpace(*e)
		}
	}
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if err := v.same(what, back); err != nil {
		return err
	}
	// the wire struct is this goroutine's own
	switch w := w.(type) {
	case *marshal.Entity:
		w.Attrs["mine"] = "x"
	case *marshal.Resource:
		w.Attrs["mine"] = "x"
	case *marshal.Object:
		w.Attrs["mine"] = "x"
	case *marshal.Link:
		w.Attrs["mine"] = "x"
	}
	return v.same(what+", the wire struct changed", back)
}
