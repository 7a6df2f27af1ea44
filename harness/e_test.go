package harness

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	"github.com/milosgajdos/netscrape/pkg/broker/digester"
	dsimple "github.com/milosgajdos/netscrape/pkg/broker/digester/simple"
	"github.com/milosgajdos/netscrape/pkg/broker/ingester"
	isimple "github.com/milosgajdos/netscrape/pkg/broker/ingester/simple"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/space"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"pgregory.net/rapid"
)

func init() {
	register("E01",
		Part("pipeline", 6000, 150000,
			"at least two entities and a link went through, with several ingesters or digesters",
			genPipe, runPipe))
}

// PipeCase is a set of values to send through the pipeline.
type PipeCase struct {
	Graph string     `json:"graph"` // default, wug or wdg
	Cap   int        `json:"cap"`
	Ings  int        `json:"ings"`
	Digs  int        `json:"digs"`
	Late  bool       `json:"late,omitempty"`  // digesters start when everything is published
	Two   bool       `json:"two,omitempty"`   // links have a topic of their own
	Made  bool       `json:"made,omitempty"`  // options are given to the constructors
	Same  bool       `json:"same,omitempty"`  // one ingester and one digester used by all
	Topic string     `json:"topic,omitempty"` // topic of the entities
	Ents  []PipeVal  `json:"ents"`
	Links []PipeLink `json:"links"`
}

// PipeVal is an entity, object or resource; or the one numbered Again-1 once
// more.
type PipeVal struct {
	V     Val `json:"v"`
	Again int `json:"again,omitempty"`
	Gap   int `json:"gap,omitempty"`  // ms before it is ingested
	Slow  int `json:"slow,omitempty"` // ms its handler takes
}

// PipeLink links two of the entities.
type PipeLink struct {
	From  int               `json:"from"`
	To    int               `json:"to"`
	UID   string            `json:"uid"`
	Attrs map[string]string `json:"attrs,omitempty"`
	Kind  int               `json:"kind,omitempty"`
	Gap   int               `json:"gap,omitempty"`
	Slow  int               `json:"slow,omitempty"`
}

func genPipe(t *rapid.T) PipeCase {
	c := PipeCase{Graph: pick(t, "graph", []string{"default", "wug", "wdg"})}
	c.Cap = pick(t, "cap", []int{0, 1, 2, 3, 7, 100, -1})
	c.Ings, c.Digs = 1+uni(t, 4, "ings"), 1+uni(t, 4, "digs")
	c.Late = pct(t, 10, "late")
	c.Two, c.Made, c.Same = uni(t, 4, "two") == 3, uni(t, 2, "made") == 1, uni(t, 2, "same") == 1
	c.Topic = pick(t, "topic", []string{"t", "", "a/b", "é"})
	ms := []int{0, 0, 0, 0, 0, 1, 7, 50}
	c.Ents = drawList(t, "ents", 1, 14, func(t *rapid.T) PipeVal {
		p := PipeVal{V: drawVal(t, pick(t, "kind", []string{kEntity, kObject, kResource}))}
		if pct(t, 12, "again") {
			p = PipeVal{Again: 1 + uni(t, 14, "which")}
		}
		p.Gap, p.Slow = pick(t, "gap", ms), pick(t, "slow", ms)
		return p
	})
	c.Links = drawList(t, "links", 0, 14, func(t *rapid.T) PipeLink {
		return PipeLink{From: uni(t, 14, "from"), To: uni(t, 14, "to"), UID: drawStr(t, "uid"), Attrs: drawMap(t, "attrs"),
			Kind: uni(t, 12, "kind"), Gap: pick(t, "gap", ms), Slow: pick(t, "slow", ms)}
	})
	return c
}

// pipeItem is something to ingest.
type pipeItem struct {
	v    Val
	gap  int
	slow int
}

// items makes the entities distinct and the links legal, and says what the
// store has to hold.
func (c PipeCase) items() (ents, links []pipeItem, m *gModel) {
	m = newModel(c.Graph == "wdg")
	var uids []string
	vals := map[string]Val{}
	for i, p := range c.Ents {
		v := p.V
		if p.Again > 0 || v.Kind == "" {
			if len(uids) == 0 {
				continue
			}
			v = vals[uids[max(p.Again-1, 0)%len(uids)]]
		} else {
			for _, ok := m.nodes[v.UID]; ok; _, ok = m.nodes[v.UID] {
				v.UID += fmt.Sprint("+", i)
			}
			m.nodes[v.UID] = &gNode{uid: v.UID, typ: v.Type, attrs: copyMap(v.Attrs)}
			uids = append(uids, v.UID)
			vals[v.UID] = v
		}
		ents = append(ents, pipeItem{v, p.Gap, p.Slow})
	}
	for _, l := range c.Links {
		if len(uids) < 2 {
			break
		}
		f, t := uids[l.From%len(uids)], uids[l.To%len(uids)]
		if f == t {
			continue
		}
		v := Val{Kind: kLink, UID: l.UID, From: f, To: t, Attrs: l.Attrs, UIDKind: l.Kind, AKind: l.Kind / 2, Impl: l.Kind / 4}
		if e := m.edge(f, t); e != nil {
			// the same link once more
			v.UID, v.Attrs, v.From, v.To = e.uid, e.attrs, e.from, e.to
		} else {
			m.edges[m.key(f, t)] = &gEdge{uid: v.UID, from: f, to: t, w: graph.DefaultWeight, attrs: copyMap(v.Attrs)}
		}
		links = append(links, pipeItem{v, l.Gap, l.Slow})
	}
	return ents, links, m
}

var kindType = map[string]broker.Type{kEntity: broker.Entity, kObject: broker.Object, kResource: broker.Resource, kLink: broker.Link}

func runPipe(c PipeCase, r *R) error {
	ents, links, m := c.items()
	err := bubble(r, func() error {
		ctx, cancel := context.WithCancel(context.Background())
		b, err := membroker.New(broker.WithCap(c.Cap), broker.WithPubTimeout(time.Hour))
		must(err)
		must(b.Open(context.Background()))
		defer func() {
			cancel()
			_ = b.Close()
			time.Sleep(3 * time.Hour)
		}()
		var sopts []memstore.Option
		if c.Graph != "default" {
			sopts = append(sopts, memstore.WithGraph(newGraph(c.Graph == "wdg").(memgraph.Graph)))
		}
		st, err := memstore.NewStore(sopts...)
		must(err)
		tops := []string{c.Topic, c.Topic}
		if c.Two {
			tops[1] += "/links"
		}
		var mu sync.Mutex
		handled, slow := 0, map[string]int{}
		var first error
		fail := func(err error) {
			mu.Lock()
			if first == nil {
				first = err
			}
			mu.Unlock()
		}
		for _, x := range append(append([]pipeItem{}, ents...), links...) {
			slow[x.v.Kind+x.v.UID+"\x00"+x.v.From+"\x00"+x.v.To] = x.slow
		}
		nap := func(kind, uid, from, to string) {
			if ms := slow[kind+uid+"\x00"+from+"\x00"+to]; ms > 0 {
				time.Sleep(time.Duration(ms) * time.Millisecond)
			}
		}
		jm := marshaler()
		handle := func(ctx context.Context, msg broker.Message) error {
			defer func() {
				mu.Lock()
				handled++
				mu.Unlock()
			}()
			var e store.Entity
			switch msg.Type {
			case broker.Entity:
				var x space.Entity
				if err := jm.Unmarshal(msg.Data, &x); err != nil {
					return err
				}
				nap(kEntity, uidStr(x.UID()), "", "")
				e = x
			case broker.Object:
				var x space.Object
				if err := jm.Unmarshal(msg.Data, &x); err != nil {
					return err
				}
				nap(kObject, uidStr(x.UID()), "", "")
				e = x
			case broker.Resource:
				var x space.Resource
				if err := jm.Unmarshal(msg.Data, &x); err != nil {
					return err
				}
				nap(kResource, uidStr(x.UID()), "", "")
				e = x
			case broker.Link:
				var x space.Link
				if err := jm.Unmarshal(msg.Data, &x); err != nil {
					return err
				}
				nap(kLink, uidStr(x.UID()), uidStr(x.From()), uidStr(x.To()))
				return st.Link(ctx, x.From(), x.To(), store.WithAttrs(x.Attrs()))
			default:
				return fmt.Errorf("a message of type %d, which nobody sent", msg.Type)
			}
			return st.Add(ctx, e, store.WithUpsert())
		}
		var digs sync.WaitGroup
		var shared *dsimple.Digester
		digest := func(topics []string) {
			for _, topic := range topics {
				for i := 0; i < c.Digs; i++ {
					sub, err := b.Sub(context.Background(), topic)
					must(err)
					var mopts, copts []digester.Option
					if c.Made {
						mopts = append(mopts, digester.WithHandler(handle))
					} else {
						copts = append(copts, digester.WithHandler(handle))
					}
					d := shared
					if d == nil {
						d, err = dsimple.NewDigester(mopts...)
						must(err)
						if c.Same {
							shared = d
						}
					}
					digs.Add(1)
					go func() {
						defer digs.Done()
						err := safely(func() error { return d.Digest(ctx, sub, copts...) })
						if ctx.Err() == nil {
							fail(fmt.Errorf("a digester stopped: %v", err))
						}
					}()
				}
			}
		}
		total := len(ents) + len(links)
		topics := tops[:1]
		if c.Two {
			topics = tops
		}
		late := c.Late && (c.Cap >= total || c.Cap < 0) && len(links) == 0
		if !late {
			digest(topics)
		}
		var one *isimple.Ingester
		ingest := func(items []pipeItem, topic string) {
			var wg sync.WaitGroup
			for i := 0; i < c.Ings; i++ {
				mopts := []ingester.Option{ingester.WithMarshaler(marshaler())}
				var copts []ingester.Option
				if !c.Made {
					mopts, copts = copts, mopts
				}
				in := one
				if in == nil {
					var err error
					in, err = isimple.NewIngester(mopts...)
					must(err)
					if c.Same {
						one = in
					}
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := i; k < len(items); k += c.Ings {
						x := items[k]
						if x.gap > 0 {
							time.Sleep(time.Duration(x.gap) * time.Millisecond)
						}
						err := safely(func() error {
							return in.Ingest(context.Background(), b, topic, kindType[x.v.Kind], x.v.build(), copts...)
						})
						if err != nil {
							fail(fmt.Errorf("ingesting %s %q: %v", x.v.Kind, x.v.UID, err))
						}
					}
				}()
			}
			wg.Wait()
		}
		wait := func(n int) error {
			for i := 0; i < 1500; i++ {
				mu.Lock()
				h, f := handled, first
				mu.Unlock()
				if f != nil {
					return f
				}
				if h >= n {
					return nil
				}
				time.Sleep(time.Millisecond)
			}
			return fmt.Errorf("%d of %d messages were handled, and then no more came", handled, n)
		}
		ingest(ents, tops[0])
		if late {
			digest(topics)
		}
		if err := wait(len(ents)); err != nil {
			return fmt.Errorf("entities: %w", err)
		}
		ingest(links, tops[1])
		if err := wait(total); err != nil {
			return fmt.Errorf("links: %w", err)
		}
		cancel()
		digs.Wait()
		if handled > total {
			return fmt.Errorf("%d messages were handled, but only %d sent", handled, total)
		}
		if first != nil {
			return first
		}
		for i, u := range sortedKeys(m.nodes) {
			e, err := st.Get(bg, mkUID(u, i))
			if err != nil {
				return fmt.Errorf("getting %q from the store: %v", u, err)
			}
			w := m.nodes[u]
			if got := uidStr(e.UID()); got != u || e.Type() != w.typ {
				return fmt.Errorf("the stored %q has UID %q and type %q, want type %q", u, got, e.Type(), w.typ)
			}
			if err := wantAttrs(fmt.Sprintf("the stored %q", u), e.Attrs(), w.attrs); err != nil {
				return err
			}
		}
		g, err := st.Graph()
		if err != nil {
			return err
		}
		h, ok := g.(memgraph.Graph)
		if !ok {
			return errors.New("the store's graph is no memory graph")
		}
		return checkGraph(h, m, sortedKeys(m.nodes), anyUID)
	})
	if len(m.nodes) > 1 && len(m.edges) > 0 {
		r.LabelIf(c.Ings > 1, "several ingesters")
		r.LabelIf(c.Digs > 1, "several digesters")
		r.LabelIf(c.Cap == 0, "unbuffered")
		r.LabelIf(c.Graph == "wdg", "directed")
		r.LabelIf(len(ents) > len(m.nodes), "an entity more than once")
		r.LabelIf(len(links) > len(m.edges), "a link more than once")
		if c.Ings > 1 || c.Digs > 1 {
			r.NonTrivial()
		}
	}
	return err
}
