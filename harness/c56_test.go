package harness

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	memuid "github.com/milosgajdos/netscrape/pkg/uuid/memory"
	"pgregory.net/rapid"
)

func init() {
	register("C05", Part("constructors", 8000, 150000, "two to five values (entities, resources, objects, links, nodes, edges) built one after the other from generated arguments with any subset of the options, given before or after one another, explicitly absent (nil) ones included, all read back when all are built, again after their DOT IDs were set and their attributes changed; non-trivial: some option given", genC05, runC05),
		Part("fresh UIDs", 8, 60, "up to 300000 UIDs, entities, resources, objects, links or edges without a UID, made by one to eight goroutines at once; no two may share a UID; non-trivial: more than one was made", genFresh, runFresh))
	register("C06", Part("histories", 6000, 120000, "up to 40 operations (set, new, copy, copy from a map, from nothing and from a foreign source, change a source map, map conversion) on up to six attribute sets and three maps, all compared with plain maps after each; non-trivial: a copy followed by a set", genC06, runC06))
}

// --- C05 ---

type C05Item struct {
	Kind    string            `json:"kind"`
	V       Val               `json:"v"` // arguments
	HasUID  bool              `json:"hasuid"`
	HasAttr bool              `json:"hasattr"`
	NilUID  bool              `json:"niluid"`
	NilAttr bool              `json:"nilattr"`
	DOTID   string            `json:"dotid"`
	HasW    bool              `json:"hasw"`
	Weight  W                 `json:"weight"`
	ID      int64             `json:"id"`
	Rev     bool              `json:"rev"` // options in reverse order
	Set     *string           `json:"set,omitempty"`
	NodeEnt int               `json:"nodeent"` // 0 entity 1 resource 2 object 3 foreign without a DOT ID
	EntDOT  string            `json:"entdot"`
	NAttrs  map[string]string `json:"nattrs"`
}

func genC05(t *rapid.T) []C05Item {
	return drawList(t, "items", 1, 5, func(t *rapid.T) C05Item {
		k := rapid.SampledFrom([]string{kEntity, kResource, kObject, kLink, "node", "edge"}).Draw(t, "kind")
		vk := k
		if k == "node" || k == "edge" {
			vk = kEntity
		}
		it := C05Item{Kind: k, V: drawVal(t, vk)}
		if k == "node" {
			it.NodeEnt = rapid.IntRange(0, 3).Draw(t, "nodeent")
			it.V = drawVal(t, []string{kEntity, kResource, kObject, kEntity}[it.NodeEnt])
			it.V.Impl = 0
			if it.NodeEnt == 3 {
				it.V.Impl = 1
			}
			it.EntDOT = rapid.SampledFrom([]string{"", "", "entity dot id"}).Draw(t, "entdot")
		}
		it.V.Impl %= 2
		it.HasUID = rapid.Bool().Draw(t, "hasuid")
		it.HasAttr = rapid.Bool().Draw(t, "hasattr")
		it.NilUID = rapid.IntRange(0, 3).Draw(t, "niluid") == 0
		it.NilAttr = rapid.IntRange(0, 3).Draw(t, "nilattr") == 0
		if rapid.IntRange(0, 2).Draw(t, "dotid?") == 0 {
			it.DOTID = drawStr(t, "dotid")
		}
		it.HasW = rapid.Bool().Draw(t, "hasw")
		it.Weight = drawWeight(t, "weight")
		it.ID = rapid.SampledFrom([]int64{0, 1, 2, -1, 1 << 40, -1 << 63, 1<<63 - 1}).Draw(t, "id")
		it.Rev = rapid.Bool().Draw(t, "rev")
		if rapid.Bool().Draw(t, "set?") {
			s := drawStr(t, "set")
			it.Set = &s
		}
		it.NAttrs = drawMap(t, "nattrs")
		return it
	})
}

var fresh struct {
	sync.Mutex
	seen map[string]bool
}

// newFresh reports whether the text was never a fresh UID before.
func newFresh(s string) bool {
	fresh.Lock()
	defer fresh.Unlock()
	if fresh.seen == nil {
		fresh.seen = map[string]bool{}
	}
	if fresh.seen[s] {
		return false
	}
	fresh.seen[s] = true
	return true
}

func rev[T any](xs []T, yes bool) []T {
	if yes {
		for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 {
			xs[i], xs[j] = xs[j], xs[i]
		}
	}
	return xs
}

type dotter interface {
	DOTID() string
	SetDOTID(string)
}

func runC05(items []C05Item, r *R) error {
	type built struct {
		it    C05Item
		x     any
		check func(dotid string, am map[string]string) error
		attrs func() attrs.Attrs
		am    map[string]string
		dotid string
		uid   string
	}
	var bs []*built
	for i := range items {
		it := items[i]
		r.Label(it.Kind)
		if it.HasUID || it.HasAttr || it.DOTID != "" || it.HasW {
			r.NonTrivial()
		}
		b := &built{it: it}
		am := map[string]string{}
		if it.HasAttr {
			am = it.V.Attrs
			if it.Kind == "node" {
				am = it.NAttrs
			}
		}
		b.am = am
		given := func() attrs.Attrs { return mkAttrs(am, it.V.AKind) }
		var uid uuid.UID
		if it.HasUID {
			uid = mkUID(it.V.UID, it.V.UIDKind)
		}
		eopts := func() []entity.Option {
			var o []entity.Option
			if it.HasUID || it.NilUID {
				o = append(o, entity.WithUID(uid))
			}
			if it.HasAttr {
				o = append(o, entity.WithAttrs(given()))
			} else if it.NilAttr {
				o = append(o, entity.WithAttrs(nil))
			}
			if it.DOTID != "" {
				o = append(o, entity.WithDOTID(it.DOTID))
			}
			return rev(o, it.Rev)
		}
		gopts := func() []graph.Option {
			var o []graph.Option
			if it.Kind == "edge" && (it.HasUID || it.NilUID) {
				o = append(o, graph.WithUID(uid))
			}
			if it.HasAttr {
				o = append(o, graph.WithAttrs(given()))
			} else if it.NilAttr {
				o = append(o, graph.WithAttrs(nil))
			}
			if it.DOTID != "" {
				o = append(o, graph.WithDOTID(it.DOTID))
			}
			if it.HasW {
				o = append(o, graph.WithWeight(it.Weight.F()))
			}
			return rev(o, it.Rev)
		}
		v := it.V
		v.Attrs = am
		fillUID := func(u uuid.UID) error {
			if u == nil {
				return fmt.Errorf("%s %d has no UID", it.Kind, i)
			}
			b.uid = u.String()
			if it.HasUID {
				b.uid = it.V.UID
			} else if b.uid == "" {
				return fmt.Errorf("%s %d: the fresh UID is empty", it.Kind, i)
			} else if !newFresh(b.uid) {
				return fmt.Errorf("%s %d: the fresh UID %s is not unique", it.Kind, i, b.uid)
			}
			v.UID = b.uid
			return nil
		}
		switch it.Kind {
		case kEntity, kResource, kObject:
			var x any
			var err error
			var dflt func() string
			switch it.Kind {
			case kEntity:
				x, err = entity.New(v.Type, eopts()...)
				dflt = func() string { return b.uid }
			case kResource:
				x, err = entity.NewResource(v.Type, v.Name, v.Group, v.Version, v.RKind, v.Nsd, eopts()...)
				dflt = func() string { return v.Group + "/" + v.Version + "/" + v.RKind }
			default:
				var res space.Resource
				if v.Res != nil {
					res = v.Res.build().(space.Resource)
				}
				x, err = entity.NewObject(v.Type, v.Name, v.NS, res, eopts()...)
				dflt = func() string {
					if v.Res == nil {
						return b.uid
					}
					return strings.Join([]string{v.Res.Group, v.Res.Version, v.Res.RKind, v.NS, v.Name}, "/")
				}
			}
			if err != nil {
				return fmt.Errorf("constructing %s %d: %v", it.Kind, i, err)
			}
			b.x = x
			if err := fillUID(x.(space.Entity).UID()); err != nil {
				return err
			}
			b.dotid = it.DOTID
			if b.dotid == "" {
				b.dotid = dflt()
			}
			b.attrs = func() attrs.Attrs { return x.(space.Entity).Attrs() }
			b.check = func(dotid string, am map[string]string) error {
				w := v
				w.Attrs = am
				if got := x.(dotter).DOTID(); got != dotid {
					return fmt.Errorf("%s %d: DOT ID is %q, want %q", it.Kind, i, got, dotid)
				}
				return w.same(fmt.Sprintf("%s %d", it.Kind, i), x)
			}
		case kLink:
			var o []link.Option
			if it.HasUID || it.NilUID {
				o = append(o, link.WithUID(uid))
			}
			if it.HasAttr {
				o = append(o, link.WithAttrs(given()))
			} else if it.NilAttr {
				o = append(o, link.WithAttrs(nil))
			}
			l, err := link.New(mkUID(v.From, v.UIDKind), mkUID(v.To, v.UIDKind+1), rev(o, it.Rev)...)
			if err != nil {
				return fmt.Errorf("constructing link %d: %v", i, err)
			}
			b.x = l
			if err := fillUID(l.UID()); err != nil {
				return err
			}
			b.attrs = func() attrs.Attrs { return l.Attrs() }
			b.check = func(_ string, am map[string]string) error {
				w := v
				w.Attrs = am
				return w.same(fmt.Sprintf("link %d", i), l)
			}
		case "node":
			ent := it.V.build().(graph.Entity)
			dflt := it.V.UID
			if d, ok := ent.(dotter); ok {
				if it.EntDOT != "" {
					d.SetDOTID(it.EntDOT)
				}
				dflt = d.DOTID()
			}
			n, err := memgraph.NewNode(it.ID, ent, gopts()...)
			if err != nil {
				return fmt.Errorf("constructing node %d: %v", i, err)
			}
			b.x, b.uid = n, it.V.UID
			b.dotid = it.DOTID
			if b.dotid == "" {
				b.dotid = dflt
			}
			b.attrs = func() attrs.Attrs { return n.Attrs() }
			entDOT := dflt
			b.check = func(dotid string, am map[string]string) error {
				if n.UID().String() != it.V.UID || n.Type() != it.V.Type || n.ID() != it.ID {
					return fmt.Errorf("node %d reports uid %q type %q id %d, want %q %q %d", i, n.UID(), n.Type(), n.ID(), it.V.UID, it.V.Type, it.ID)
				}
				if n.DOTID() != dotid {
					return fmt.Errorf("node %d: DOT ID is %q, want %q", i, n.DOTID(), dotid)
				}
				if d, ok := ent.(dotter); ok && d.DOTID() != entDOT {
					return fmt.Errorf("node %d: its entity's DOT ID changed to %q", i, d.DOTID())
				}
				if err := it.V.same(fmt.Sprintf("entity of node %d", i), ent); err != nil {
					return err
				}
				dot := map[string]string{}
				for _, a := range n.Attributes() {
					dot[a.Key] = a.Value
				}
				if len(n.Attributes()) != len(am) || !eqMap(dot, am) {
					return fmt.Errorf("node %d: DOT attributes %q, want %q", i, dot, am)
				}
				return wantAttrs(fmt.Sprintf("node %d", i), n.Attrs(), am)
			}
		case "edge":
			mk := func(id int64, uid string) *memgraph.Node {
				n, err := memgraph.NewNode(id, tEnt{tUID{uid}, "t", memattrs.New()})
				must(err)
				return n
			}
			f, t := mk(it.ID, "from"), mk(it.ID+1, "to")
			e, err := memgraph.NewEdge(f, t, gopts()...)
			if err != nil {
				return fmt.Errorf("constructing edge %d: %v", i, err)
			}
			b.x = e
			if it.DOTID != "" { // as documented, it overrides the UID
				b.uid, b.dotid = it.DOTID, it.DOTID
			} else {
				if err := fillUID(e.UID()); err != nil {
					return err
				}
				b.dotid = b.uid
			}
			want := 1.0
			if it.HasW {
				want = it.Weight.F()
			}
			b.attrs = func() attrs.Attrs { return e.Attrs() }
			b.check = func(dotid string, am map[string]string) error {
				if uidStr(e.UID()) != b.uid {
					return fmt.Errorf("edge %d: UID is %q, want %q", i, e.UID(), b.uid)
				}
				if e.DOTID() != dotid {
					return fmt.Errorf("edge %d: DOT ID is %q, want %q", i, e.DOTID(), dotid)
				}
				if !sameWeight(e.Weight(), want) {
					return fmt.Errorf("edge %d: weight is %v, want %v", i, e.Weight(), want)
				}
				fn, ferr := e.FromNode()
				tn, terr := e.ToNode()
				if ferr != nil || terr != nil || fn.UID().String() != "from" || tn.UID().String() != "to" || e.From().ID() != f.ID() || e.To().ID() != t.ID() {
					return fmt.Errorf("edge %d: endpoints are %v -> %v, want from -> to", i, fn, tn)
				}
				dot := map[string]string{}
				for _, a := range e.Attributes() {
					dot[a.Key] = a.Value
				}
				if len(e.Attributes()) != len(am) || !eqMap(dot, am) {
					return fmt.Errorf("edge %d: DOT attributes %q, want %q", i, dot, am)
				}
				if rv, ok := e.ReversedEdge().(*memgraph.Edge); ok {
					if uidStr(rv.UID()) != b.uid || rv.DOTID() != dotid || !sameWeight(rv.Weight(), want) || rv.From().ID() != t.ID() || rv.To().ID() != f.ID() {
						return fmt.Errorf("edge %d reversed has UID %q, DOT ID %q, weight %v and leads from %d to %d, want %q, %q, %v, %d and %d", i, rv.UID(), rv.DOTID(), rv.Weight(), rv.From().ID(), rv.To().ID(), b.uid, dotid, want, t.ID(), f.ID())
					}
					if err := wantAttrs(fmt.Sprintf("edge %d reversed", i), rv.Attrs(), am); err != nil {
						return err
					}
				}
				return wantAttrs(fmt.Sprintf("edge %d", i), e.Attrs(), am)
			}
		}
		bs = append(bs, b)
	}
	for _, b := range bs {
		if err := b.check(b.dotid, b.am); err != nil {
			return err
		}
	}
	for i, b := range bs {
		if b.it.Set != nil {
			if d, ok := b.x.(dotter); ok {
				r.Label("DOT ID set later")
				d.SetDOTID(*b.it.Set)
				b.dotid = *b.it.Set
			}
		}
		am := copyMap(b.am)
		am["set later"] = fmt.Sprint(i)
		if err := b.attrs().Set(bg, "set later", fmt.Sprint(i)); err != nil {
			return fmt.Errorf("setting an attribute: %v", err)
		}
		b.am = am
		for _, o := range bs {
			if err := o.check(o.dotid, o.am); err != nil {
				return fmt.Errorf("after changing %s %d: %v", b.it.Kind, i, err)
			}
		}
	}
	for i := 0; i < 3; i++ {
		if u := memuid.New().String(); u == "" || !newFresh(u) {
			return fmt.Errorf("the fresh UID %q is not unique", u)
		}
	}
	return nil
}

// FrCase makes N values without UIDs.
type FrCase struct {
	Kind    string `json:"kind"`
	N       int    `json:"n"`
	Workers int    `json:"workers"`
}

func genFresh(t *rapid.T) FrCase {
	return FrCase{
		Kind:    pick(t, "kind", []string{"uid", "uid", kEntity, kResource, kObject, kLink, "edge"}),
		N:       pick(t, "n", []int{1000, 300000, 300000}),
		Workers: pick(t, "workers", []int{1, 2, 8}),
	}
}

func runFresh(c FrCase, r *R) error {
	n, err := memgraph.NewNode(1, tEnt{tUID{"n"}, "t", memattrs.New()})
	must(err)
	mk := func() (uuid.UID, error) {
		switch c.Kind {
		case kEntity:
			x, err := entity.New("t")
			return x.UID(), err
		case kResource:
			x, err := entity.NewResource("t", "n", "g", "v", "k", true)
			return x.UID(), err
		case kObject:
			x, err := entity.NewObject("t", "n", "ns", nil)
			return x.UID(), err
		case kLink:
			x, err := link.New(tUID{"a"}, tUID{"b"})
			return x.UID(), err
		case "edge":
			x, err := memgraph.NewEdge(n, n)
			return x.UID(), err
		}
		return memuid.New(), nil
	}
	got := make([]string, c.N)
	errs := make([]error, c.Workers)
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[w] = safely(func() error {
				for i := w; i < c.N; i += c.Workers {
					u, err := mk()
					if err != nil {
						return err
					}
					got[i] = uidStr(u)
				}
				return nil
			})
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	seen := make(map[string]struct{}, c.N)
	for _, u := range got {
		if u == "" {
			return fmt.Errorf("a fresh UID is empty")
		}
		seen[u] = struct{}{}
	}
	r.LabelIf(c.Workers > 1, "concurrent")
	if len(seen) < c.N {
		return fmt.Errorf("%d values without UIDs got only %d different UIDs", c.N, len(seen))
	}
	if c.N > 1 {
		r.NonTrivial()
	}
	return nil
}

// --- C06 ---

type C06Op struct {
	Op  string            `json:"op"`
	A   int               `json:"a"`
	B   int               `json:"b"`
	Key string            `json:"k,omitempty"`
	Val string            `json:"v,omitempty"`
	M   map[string]string `json:"m,omitempty"`
	// Ended makes the operation one under a context that has ended
	Ended bool `json:"ended,omitempty"`
}

// endedCtx is a context that has ended.
var endedCtx = func() context.Context {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	return ctx
}()

func genC06(t *rapid.T) []C06Op {
	n := 12 + drawSize(t, "n", 13, 28)
	keys := []string{drawStr(t, "k0"), drawStr(t, "k1"), drawStr(t, "k2"), drawStr(t, "k3")}
	if rapid.Bool().Draw(t, "alike?") {
		keys[1], keys[2] = variant(t, keys[0]), variant(t, keys[0])
	}
	return drawList(t, "ops", 0, n, func(t *rapid.T) C06Op {
		o := C06Op{
			Op: rapid.SampledFrom([]string{"set", "set", "set", "set", "new", "copy", "copynil", "copyforeign", "copymap", "nilmap", "setmap", "tomap", "get"}).Draw(t, "op"),
			A:  rapid.IntRange(0, 5).Draw(t, "a"), B: rapid.IntRange(0, 5).Draw(t, "b"),
			Ended: pct(t, 10, "ended"),
		}
		switch o.Op {
		case "set", "setmap", "get":
			o.Key = rapid.SampledFrom(keys).Draw(t, "key")
			o.Val = drawStr(t, "val")
		case "copyforeign", "copymap":
			o.M = drawMap(t, "m")
		}
		return o
	})
}

func runC06(ops []C06Op, r *R) error {
	type slot struct {
		a *memattrs.Attrs
		m map[string]string // model
	}
	slots := make([]*slot, 6)
	for i := range slots {
		slots[i] = &slot{memattrs.New(), map[string]string{}}
	}
	maps := make([]map[string]string, 3)
	mmod := make([]map[string]string, 3)
	for i := range maps {
		maps[i], mmod[i] = map[string]string{}, map[string]string{}
	}
	foreign := []struct {
		a *tAttrs
		m map[string]string
	}{}
	check := func(i int, op string) error {
		for j, s := range slots {
			if err := wantAttrs(fmt.Sprintf("after op %d (%s): set %d", i, op, j), s.a, s.m); err != nil {
				return err
			}
			for _, k := range []string{"", "absent", "é"} {
				if v, err := s.a.Get(bg, k); err != nil || v != s.m[k] {
					return fmt.Errorf("after op %d (%s): set %d reads %q as %q, %v; want %q", i, op, j, k, v, err, s.m[k])
				}
			}
			for what, l := range map[string]interface{ get() map[string]string }{"DOT attributes": dotOf(s.a), "DOT attributes of the interface": dotOf2(s.a)} {
				if got := l.get(); !eqMap(got, s.m) {
					return fmt.Errorf("after op %d (%s): %s of set %d are %q, want %q", i, op, what, j, got, s.m)
				}
			}
			if n := len(s.a.Attributes()); n != len(s.m) {
				return fmt.Errorf("after op %d (%s): set %d has %d DOT attributes, want %d", i, op, j, n, len(s.m))
			}
		}
		for j := range maps {
			if !eqMap(maps[j], mmod[j]) {
				return fmt.Errorf("after op %d (%s): source map %d changed to %q, want %q", i, op, j, maps[j], mmod[j])
			}
		}
		for j, f := range foreign {
			if !eqMap(f.a.m, f.m) {
				return fmt.Errorf("after op %d (%s): foreign source %d changed to %q, want %q", i, op, j, f.a.m, f.m)
			}
		}
		return nil
	}
	copied := false
	for i, o := range ops {
		s := slots[o.A%len(slots)]
		ctx := bg
		if o.Ended {
			ctx = endedCtx
		}
		// refused reports whether the operation was refused as its context
		// had ended
		refused := func(err error) bool { return err != nil && o.Ended && errors.Is(err, context.Canceled) }
		switch o.Op {
		case "set":
			err := s.a.Set(ctx, o.Key, o.Val)
			if refused(err) {
				break
			}
			if err != nil {
				return fmt.Errorf("op %d set: %v", i, err)
			}
			s.m[o.Key] = o.Val
			if copied {
				r.NonTrivial()
			}
		case "get":
			if v, err := s.a.Get(ctx, o.Key); !refused(err) && (err != nil || v != s.m[o.Key]) {
				return fmt.Errorf("op %d: reads %q as %q, %v; want %q", i, o.Key, v, err, s.m[o.Key])
			}
		case "new":
			s.a, s.m = memattrs.New(), map[string]string{}
		case "copy":
			src := slots[o.B%len(slots)]
			a, err := memattrs.NewCopyFrom(ctx, src.a)
			if refused(err) {
				break
			}
			if err != nil {
				return fmt.Errorf("op %d copy: %v", i, err)
			}
			r.LabelIf(len(src.m) > 0, "copied some")
			s.a, s.m = a, copyMap(src.m)
			copied = true
		case "copynil":
			a, err := memattrs.NewCopyFrom(bg, nil)
			if err != nil {
				return fmt.Errorf("op %d copy from nothing: %v", i, err)
			}
			s.a, s.m = a, map[string]string{}
			r.Label("copied nothing")
		case "copyforeign":
			f := &tAttrs{m: copyMap(o.M), order: o.B}
			a, err := memattrs.NewCopyFrom(ctx, f)
			if refused(err) {
				break
			}
			if err != nil {
				return fmt.Errorf("op %d copy from a foreign source: %v", i, err)
			}
			s.a, s.m = a, copyMap(o.M)
			foreign = append(foreign, struct {
				a *tAttrs
				m map[string]string
			}{f, copyMap(o.M)})
			copied = true
		case "copymap":
			j := o.B % len(maps)
			maps[j], mmod[j] = copyMap(o.M), copyMap(o.M)
			s.a, s.m = memattrs.NewFromMap(maps[j]), copyMap(o.M)
			copied = true
		case "nilmap":
			s.a, s.m = memattrs.NewFromMap(nil), map[string]string{}
			r.Label("copied nothing")
		case "setmap":
			j := o.B % len(maps)
			maps[j][o.Key], mmod[j][o.Key] = o.Val, o.Val
		case "tomap":
			m, err := attrs.ToMap(ctx, s.a)
			if refused(err) {
				break
			}
			if err != nil {
				return fmt.Errorf("op %d to map: %v", i, err)
			}
			if !eqMap(m, s.m) {
				return fmt.Errorf("op %d: the map conversion is %q, want %q", i, m, s.m)
			}
			if m == nil {
				return fmt.Errorf("op %d: the map conversion is nil", i)
			}
			m["changed"] = "later"
			for k := range m {
				m[k] += "!"
			}
		}
		if err := check(i, o.Op); err != nil {
			return err
		}
	}
	return nil
}

type dotPairs []struct{ k, v string }

func (d dotPairs) get() map[string]string {
	m := map[string]string{}
	for _, p := range d {
		m[p.k] = p.v
	}
	return m
}

func dotOf(a *memattrs.Attrs) dotPairs {
	var d dotPairs
	for _, x := range a.Attributes() {
		d = append(d, struct{ k, v string }{x.Key, x.Value})
	}
	return d
}

func dotOf2(a *memattrs.Attrs) dotPairs {
	var d dotPairs
	for _, x := range memattrs.DOTAttrs(a) {
		d = append(d, struct{ k, v string }{x.Key, x.Value})
	}
	return d
}
