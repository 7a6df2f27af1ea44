package harness

import (
	"context"
	"fmt"
	"reflect"
	"sync"
	"time"

	"github.com/milosgajdos/netscrape"
	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"pgregory.net/rapid"
)

// Whoever implements a graph, store, broker, cache, scraper, ingester or
// digester of their own, or calls one, speaks through option values: an
// option says one thing, whenever, in whatever order and however often it is
// applied.

func init() {
	register("O01", Part("options", 20000, 400000, "up to 16 options of one package, with up to two values each (zero values and nil among them), made at any time and applied, some several times, some by two goroutines at once, to up to three sets of options, some of which had settings before; after each all settings of all sets are compared with a model; non-trivial: options were applied to one set that name the same setting with different values", genOpts, runOpts))
}

// OptCase is a history of options of one package.
type OptCase struct {
	Family int     `json:"family"`
	Ops    []OptOp `json:"ops"`
}

// OptOp makes option Opt with value Val, or takes an earlier one (Again > 0),
// and applies it to set T.
type OptOp struct {
	Opt   int   `json:"opt"`
	Val   OVal  `json:"val"`
	Again int   `json:"again,omitempty"`
	T     []int `json:"t"`
}

// OVal picks a value; Which 0 is the zero value.
type OVal struct {
	Which int    `json:"which"`
	S     string `json:"s,omitempty"`
	N     int64  `json:"n,omitempty"`
	W     W      `json:"w,omitempty"`
}

type optKind struct {
	name  string
	field string
	make  func(v OVal, p *optPool) (apply func(any), want any)
}

type optFamily struct {
	name  string
	fresh func() any
	opts  []optKind
}

// optPool holds the values that have to be the same object each time.
type optPool struct {
	uids    []uuid.UID
	attrs   []attrs.Attrs
	graphs  []memgraph.Graph
	stores  []store.Store
	brokers []broker.Broker
	marsh   []broker.Marshaler
	unmarsh []broker.Unmarshaler
	hs      []broker.Handler
	dots    []graph.DOTOptions
}

type optMarsh struct{ n *int }

func (m optMarsh) Marshal(any) ([]byte, error) { return nil, nil }
func (m optMarsh) Unmarshal([]byte, any) error { return nil }
func (m optMarsh) String() string              { return fmt.Sprint(*m.n) }

type optErr int

func (e optErr) Error() string { return fmt.Sprint(int(e)) }

// optStore and optBroker are only looked at.
type optStore struct{ store.Store }
type optBroker struct{ broker.Broker }

func newOptPool() *optPool {
	p := &optPool{}
	for i := 0; i < 3; i++ {
		p.uids = append(p.uids, mkUID(fmt.Sprint("u", i/2), i))
		p.attrs = append(p.attrs, memattrs.NewFromMap(map[string]string{"n": fmt.Sprint(i / 2)}))
		g, err := memgraph.NewWUG()
		must(err)
		p.graphs = append(p.graphs, g)
		p.stores = append(p.stores, &optStore{})
		p.brokers = append(p.brokers, &optBroker{})
		m := optMarsh{new(int)}
		*m.n = i
		p.marsh, p.unmarsh = append(p.marsh, m), append(p.unmarsh, m)
		p.hs = append(p.hs, func(context.Context, broker.Message) error { return optErr(i) })
		p.dots = append(p.dots, graph.DOTOptions{GraphAttrs: memattrs.New(), NodeAttrs: memattrs.New()})
	}
	return p
}

// optFrom picks the value of a pool.
func optFrom[T any](l []T, v OVal) T {
	var zero T
	if v.Which == 0 {
		return zero
	}
	return l[v.Which%len(l)]
}

func optOf[O any, F ~func(*O)](name, field string, mk func(OVal, *optPool) (F, any)) optKind {
	return optKind{name, field, func(v OVal, p *optPool) (func(any), any) {
		f, want := mk(v, p)
		return func(o any) { f(o.(*O)) }, want
	}}
}

func optS(v OVal) string {
	if v.Which == 0 {
		return ""
	}
	return v.S
}

func optN(v OVal) int64 {
	if v.Which == 0 {
		return 0
	}
	return v.N
}

var optFamilies = []optFamily{
	{"netscrape", func() any { return &netscrape.Options{} }, []optKind{
		optOf[netscrape.Options, netscrape.Option]("WithStore", "Store", func(v OVal, p *optPool) (netscrape.Option, any) {
			x := optFrom(p.stores, v)
			return netscrape.WithStore(x), x
		}),
		optOf[netscrape.Options, netscrape.Option]("WithBroker", "Broker", func(v OVal, p *optPool) (netscrape.Option, any) {
			x := optFrom(p.brokers, v)
			return netscrape.WithBroker(x), x
		}),
		optOf[netscrape.Options, netscrape.Option]("WithMarshaler", "Marshaler", func(v OVal, p *optPool) (netscrape.Option, any) {
			x := optFrom(p.marsh, v)
			return netscrape.WithMarshaler(x), x
		}),
	}},
	{"graph", func() any { return &graph.Options{} }, []optKind{
		optOf[graph.Options, graph.Option]("WithUID", "UID", func(v OVal, p *optPool) (graph.Option, any) { x := optFrom(p.uids, v); return graph.WithUID(x), x }),
		optOf[graph.Options, graph.Option]("WithDOTID", "DOTID", func(v OVal, p *optPool) (graph.Option, any) { return graph.WithDOTID(optS(v)), optS(v) }),
		optOf[graph.Options, graph.Option]("WithName", "Name", func(v OVal, p *optPool) (graph.Option, any) { return graph.WithName(optS(v)), optS(v) }),
		optOf[graph.Options, graph.Option]("WithAttrs", "Attrs", func(v OVal, p *optPool) (graph.Option, any) { x := optFrom(p.attrs, v); return graph.WithAttrs(x), x }),
		optOf[graph.Options, graph.Option]("WithWeight", "Weight", func(v OVal, p *optPool) (graph.Option, any) { return graph.WithWeight(v.W.F()), v.W.F() }),
		optOf[graph.Options, graph.Option]("WithUpsert", "Upsert", func(v OVal, p *optPool) (graph.Option, any) { return graph.WithUpsert(), true }),
		optOf[graph.Options, graph.Option]("WithNoCache", "NoCache", func(v OVal, p *optPool) (graph.Option, any) { return graph.WithNoCache(), true }),
		optOf[graph.Options, graph.Option]("WithDOTOptions", "DOTOptions", func(v OVal, p *optPool) (graph.Option, any) {
			x := optFrom(p.dots, v)
			return graph.WithDOTOptions(x), x
		}),
	}},
	{"store", func() any { return &store.Options{} }, []optKind{
		optOf[store.Options, store.Option]("WithUpsert", "Upsert", func(v OVal, p *optPool) (store.Option, any) { return store.WithUpsert(), true }),
		optOf[store.Options, store.Option]("WithGraph", "Graph", func(v OVal, p *optPool) (store.Option, any) { x := optFrom(p.graphs, v); return store.WithGraph(x), x }),
		optOf[store.Options, store.Option]("WithAttrs", "Attrs", func(v OVal, p *optPool) (store.Option, any) { x := optFrom(p.attrs, v); return store.WithAttrs(x), x }),
	}},
	{"store/memory", func() any { return &memstore.Options{} }, []optKind{
		optOf[memstore.Options, memstore.Option]("WithUID", "UID", func(v OVal, p *optPool) (memstore.Option, any) {
			x := optFrom(p.uids, v)
			return memstore.WithUID(x), x
		}),
		optOf[memstore.Options, memstore.Option]("WithGraph", "Graph", func(v OVal, p *optPool) (memstore.Option, any) {
			x := optFrom(p.graphs, v)
			return memstore.WithGraph(x), x
		}),
	}},
	{"broker", func() any { return &broker.Options{} }, []optKind{
		optOf[broker.Options, broker.Option]("WithCap", "Cap", func(v OVal, p *optPool) (broker.Option, any) { return broker.WithCap(int(optN(v))), int(optN(v)) }),
		optOf[broker.Options, broker.Option]("WithSink", "Sink", func(v OVal, p *optPool) (broker.Option, any) { x := broker.Sink(optN(v)); return broker.WithSink(x), x }),
		optOf[broker.Options, broker.Option]("WithPubTimeout", "PubTimeout", func(v OVal, p *optPool) (broker.Option, any) {
			x := time.Duration(optN(v))
			return broker.WithPubTimeout(x), x
		}),
		optOf[broker.Options, broker.Option]("WithSubTimeout", "RecvTimeout", func(v OVal, p *optPool) (broker.Option, any) {
			x := time.Duration(optN(v))
			return broker.WithSubTimeout(x), x
		}),
	}},
	{"cache", func() any { return &cache.Options{} }, []optKind{
		optOf[cache.Options, cache.Option]("WithUpsert", "Upsert", func(v OVal, p *optPool) (cache.Option, any) { return cache.WithUpsert(), true }),
	}},
	{"broker/ingester", func() any { return &ingester.Options{} }, []optKind{
		optOf[ingester.Options, ingester.Option]("WithMarshaler", "Marshaler", func(v OVal, p *optPool) (ingester.Option, any) {
			x := optFrom(p.marsh, v)
			return ingester.WithMarshaler(x), x
		}),
	}},
	{"broker/digester", func() any { return &digester.Options{} }, []optKind{
		optOf[digester.Options, digester.Option]("WithHandler", "Handler", func(v OVal, p *optPool) (digester.Option, any) {
			x := optFrom(p.hs, v)
			return digester.WithHandler(x), x
		}),
		optOf[digester.Options, digester.Option]("WithMarshaler", "Unmarshaler", func(v OVal, p *optPool) (digester.Option, any) {
			x := optFrom(p.unmarsh, v)
			return digester.WithMarshaler(x), x
		}),
	}},
	{"space/entity", func() any { return &entity.Options{} }, []optKind{
		optOf[entity.Options, entity.Option]("WithUID", "UID", func(v OVal, p *optPool) (entity.Option, any) { x := optFrom(p.uids, v); return entity.WithUID(x), x }),
		optOf[entity.Options, entity.Option]("WithAttrs", "Attrs", func(v OVal, p *optPool) (entity.Option, any) { x := optFrom(p.attrs, v); return entity.WithAttrs(x), x }),
		optOf[entity.Options, entity.Option]("WithDOTID", "DOTID", func(v OVal, p *optPool) (entity.Option, any) { return entity.WithDOTID(optS(v)), optS(v) }),
	}},
	{"space/link", func() any { return &link.Options{} }, []optKind{
		optOf[link.Options, link.Option]("WithUID", "UID", func(v OVal, p *optPool) (link.Option, any) { x := optFrom(p.uids, v); return link.WithUID(x), x }),
		optOf[link.Options, link.Option]("WithAttrs", "Attrs", func(v OVal, p *optPool) (link.Option, any) { x := optFrom(p.attrs, v); return link.WithAttrs(x), x }),
		optOf[link.Options, link.Option]("WithMerge", "Merge", func(v OVal, p *optPool) (link.Option, any) { return link.WithMerge(v.Which > 0), v.Which > 0 }),
	}},
}

var _ = membroker.New

func genOpts(t *rapid.T) OptCase {
	c := OptCase{Family: uni(t, len(optFamilies), "family")}
	n := len(optFamilies[c.Family].opts)
	c.Ops = drawList(t, "ops", 1, 16, func(t *rapid.T) OptOp {
		o := OptOp{Opt: uni(t, n, "opt"), Val: OVal{Which: uni(t, 4, "which")}}
		if o.Val.Which > 0 {
			o.Val.S, o.Val.W = drawStr(t, "s"), drawWeight(t, "w")
			o.Val.N = rapid.SampledFrom([]int64{-1 << 62, -100, -1, 1, 2, 3, 64, 100, 101, 1000000, 1<<62 + 1}).Draw(t, "n")
		}
		if pct(t, 25, "again?") {
			o.Again = 1 + uni(t, 8, "again")
		}
		o.T = drawList(t, "t", 1, 3, func(t *rapid.T) int { return uni(t, 3, "t") })
		return o
	})
	return c
}

// optGet reads a setting, so that it can be compared; ok is false if there is
// none of the name.
func optGet(o any, field string) (v any, ok bool) {
	f := reflect.ValueOf(o).Elem().FieldByName(field)
	if !f.IsValid() || !f.CanInterface() {
		return nil, false
	}
	return optValue(f.Interface()), true
}

func optValue(v any) any {
	switch x := v.(type) {
	case broker.Handler:
		if x == nil {
			return "no handler"
		}
		return "handler " + x(bg, broker.Message{}).Error()
	case func(context.Context, broker.Message) error:
		return optValue(broker.Handler(x))
	case float64:
		return fmt.Sprintf("%x", x)
	}
	return v
}

func runOpts(c OptCase, r *R) error {
	f := optFamilies[c.Family%len(optFamilies)]
	p := newOptPool()
	type made struct {
		k     optKind
		apply func(any)
		want  any
	}
	var all []made
	type set struct {
		o    any
		want map[string]any
	}
	sets := make([]set, 3)
	for i := range sets {
		sets[i] = set{f.fresh(), map[string]any{}}
		for _, k := range f.opts {
			if v, ok := optGet(sets[i].o, k.field); ok {
				sets[i].want[k.field] = v
			}
		}
	}
	clash := false
	given := map[string]any{}
	for n, o := range c.Ops {
		var m made
		if o.Again > 0 && len(all) > 0 {
			m = all[o.Again%len(all)]
		} else {
			k := f.opts[o.Opt%len(f.opts)]
			m.k = k
			m.apply, m.want = k.make(o.Val, p)
			all = append(all, m)
		}
		// one option applied to several sets, at once if they are different
		seen := map[int]bool{}
		for _, t := range o.T {
			seen[t%3] = true
		}
		var wg sync.WaitGroup
		for t := range seen {
			if len(seen) > 1 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					m.apply(sets[t].o)
				}()
			} else {
				m.apply(sets[t].o)
			}
			if _, ok := sets[t].want[m.k.field]; ok {
				key := fmt.Sprint(t, m.k.field)
				w := optValue(m.want)
				if g, ok := given[key]; ok && g != w {
					clash = true
				}
				given[key] = w
				sets[t].want[m.k.field] = w
			}
		}
		wg.Wait()
		for t, s := range sets {
			for _, k := range f.opts {
				got, ok := optGet(s.o, k.field)
				if !ok {
					continue
				}
				if got != s.want[k.field] {
					return fmt.Errorf("op %d (%s.%s of %v): %s of set %d is %v, want %v", n, f.name, m.k.name, m.want, k.field, t, got, s.want[k.field])
				}
			}
		}
	}
	r.Label(f.name)
	if clash || len(f.opts) == 1 && len(c.Ops) > 1 {
		r.NonTrivial()
	}
	return nil
}
