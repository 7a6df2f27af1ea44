package harness

import (
	"context"
	"fmt"
	"runtime"
	"slices"
	"sort"
	"testing/synctest"
	"time"
	"weak"

	"github.com/milosgajdos/netscrape/pkg/attrs"
	memattrs "github.com/milosgajdos/netscrape/pkg/attrs/memory"
	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"github.com/milosgajdos/netscrape/pkg/cache"
	memcache "github.com/milosgajdos/netscrape/pkg/cache/memory"
	"github.com/milosgajdos/netscrape/pkg/graph"
	memgraph "github.com/milosgajdos/netscrape/pkg/graph/memory"
	"github.com/milosgajdos/netscrape/pkg/plan"
	"github.com/milosgajdos/netscrape/pkg/plan/simple"
	"github.com/milosgajdos/netscrape/pkg/space/entity"
	"github.com/milosgajdos/netscrape/pkg/space/link"
	"github.com/milosgajdos/netscrape/pkg/store"
	memstore "github.com/milosgajdos/netscrape/pkg/store/memory"
	"github.com/milosgajdos/netscrape/pkg/uuid"
	"pgregory.net/rapid"
)

func init() {
	rule := "; every object handed in is followed by a weak pointer: after the history, performed on a goroutine that has ended, and garbage collections, those that no query shows any more must be gone; non-trivial: something was shown and is no longer"
	register("M01",
		Part("graph", 500, 15000, "histories of up to 40 additions, upserts, removals, links, unlinks and subgraphs over up to six UIDs on either kind of graph; nodes, their attributes and entities, and link attributes are followed"+rule, genMem("add", "add", "add", "upsert", "remove", "link", "link", "link", "unlink", "sub", "dot"), runMem(memGraph)),
		Part("store", 500, 15000, "histories of up to 40 store operations, single and bulk; entities, their attributes and link attributes are followed"+rule, genMem("add", "add", "bulkadd", "upsert", "upsert", "delete", "bulkdelete", "link", "link", "bulklink", "unlink", "bulkunlink", "get"), runMem(memStore)),
		Part("cache", 500, 15000, "histories of up to 40 cache operations, single and bulk; links are followed"+rule, genMem("put", "put", "put", "upsert", "delete", "bulkput", "bulkdelete", "clear", "get"), runMem(memCache)),
		Part("plan", 400, 10000, "histories of up to 40 plan operations; resources are followed"+rule, genMem("add", "add", "delete", "get"), runMem(memPlan)),
		Part("broker", 700, 20000, "histories of up to 40 broker operations by one goroutine in virtual time, each under a context of its own; the subscriptions, the payloads of the messages and the contexts are followed, and so are the goroutines of the broker, of which there may be as many as open sessions, topics and subscriptions explain; non-trivial: a message was received or lost with its session, or a subscription ended", genMemBroker, runMemBroker))
}

// MemCase is a history of which only what remains at its end is looked at.
type MemCase struct {
	Kind int     `json:"kind"`
	Ops  []MemOp `json:"ops"`
}

// MemOp is an operation.
type MemOp struct {
	Op string `json:"op"`
	U  int    `json:"u"`
	V  int    `json:"v"`
	L  []int  `json:"l,omitempty"`
}

func genMem(ops ...string) func(*rapid.T) MemCase {
	return func(t *rapid.T) MemCase {
		c := MemCase{Kind: uni(t, 2, "kind")}
		n := 2 + uni(t, 5, "uids")
		c.Ops = drawList(t, "ops", 1, 40, func(t *rapid.T) MemOp {
			o := MemOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), U: uni(t, n, "u"), V: uni(t, n, "v")}
			if len(o.Op) > 4 && o.Op[:4] == "bulk" {
				o.L = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 4).Draw(t, "l")
			}
			if o.Op == "clear" && uni(t, 3, "clear?") > 0 {
				o.Op = "delete"
			}
			return o
		})
		return c
	}
}

func memU(i int) uuid.UID { return tUID{fmt.Sprintf("u%d", i)} }

func memUs(l []int) (us []uuid.UID) {
	for _, i := range l {
		us = append(us, memU(i))
	}
	return
}

// follower keeps weak pointers.
type follower struct {
	n     int
	alive []func() bool
	what  []string
	tag   []int
}

func follow[T any](f *follower, tag int, what string, p *T) {
	w := weak.Make(p)
	f.alive = append(f.alive, func() bool { return w.Value() != nil })
	f.what = append(f.what, what)
	f.tag = append(f.tag, tag)
}

func (f *follower) next() int { f.n++; return f.n }

// held lists the objects that are still alive though not visible.
func (f *follower) held(visible map[int]bool) (out []string) {
	for i, alive := range f.alive {
		if !visible[f.tag[i]] && alive() {
			out = append(out, f.what[i])
		}
	}
	sort.Strings(out)
	return
}

// settle collects garbage until nothing invisible is alive, a few times at most.
func (f *follower) settle(visible map[int]bool) error {
	var out []string
	for i := 0; i < 5; i++ {
		runtime.GC()
		if out = f.held(visible); len(out) == 0 {
			return nil
		}
	}
	return fmt.Errorf("no query shows it any more but it is still held: %v", out)
}

// mAttrs are attributes that can be told apart.
type mAttrs struct {
	*memattrs.Attrs
	tag int
}

func (f *follower) attrs(what string) (*mAttrs, int) {
	tag := f.next()
	a := &mAttrs{memattrs.New(), tag}
	follow(f, tag, fmt.Sprintf("the attributes of %s", what), a)
	return a, tag
}

type mEnt struct {
	uid   uuid.UID
	attrs attrs.Attrs
	tag   int
}

func (e *mEnt) UID() uuid.UID      { return e.uid }
func (e *mEnt) Type() string       { return "t" }
func (e *mEnt) Attrs() attrs.Attrs { return e.attrs }

type memRun struct {
	// op performs an operation, visible tells the tags queries show.
	op      func(o MemOp)
	visible func() map[int]bool
}

//go:noinline
func apart(f func() error) error {
	done := make(chan error)
	go func() { done <- safely(f) }()
	return <-done
}

func runMem(mk func(kind int, f *follower) *memRun) func(MemCase, *R) error {
	return func(c MemCase, r *R) error {
		f := &follower{}
		var keep *memRun
		var visible map[int]bool
		if err := apart(func() error {
			keep = mk(c.Kind, f)
			for _, o := range c.Ops {
				keep.op(o)
			}
			visible = keep.visible()
			return nil
		}); err != nil {
			return err
		}
		if len(visible) < f.n {
			r.NonTrivial()
		}
		err := f.settle(visible)
		runtime.KeepAlive(keep)
		return err
	}
}

func memGraph(kind int, f *follower) *memRun {
	g := mkGraph(kind)
	tags := func(a attrs.Attrs, m map[int]bool) {
		if a, ok := a.(*mAttrs); ok {
			m[a.tag] = true
		}
	}
	return &memRun{
		op: func(o MemOp) {
			u, v := memU(o.U), memU(o.V)
			switch o.Op {
			case "add", "upsert":
				a, tag := f.attrs(fmt.Sprintf("node u%d", o.U))
				ent := &mEnt{u, memattrs.New(), tag}
				follow(f, tag, fmt.Sprintf("the entity of node u%d", o.U), ent)
				n, err := g.NewNode(bg, ent, graph.WithAttrs(a))
				must(err)
				if n, ok := n.(*memgraph.Node); ok {
					follow(f, tag, fmt.Sprintf("node u%d", o.U), n)
				}
				if o.Op == "upsert" {
					must(g.AddNode(bg, n, graph.WithUpsert()))
				} else {
					_ = g.AddNode(bg, n)
				}
			case "remove":
				must(g.RemoveNode(bg, u))
			case "link":
				a, _ := f.attrs(fmt.Sprintf("a link of u%d and u%d", o.U, o.V))
				_, _ = g.Link(bg, u, v, graph.WithAttrs(a), graph.WithWeight(float64(o.U)))
			case "unlink":
				must(g.Unlink(bg, u, v))
			case "sub":
				_, _ = g.SubGraph(bg, u, o.V)
				_, _ = g.From(bg, u)
			case "dot":
				if d, ok := g.(interface{ DOT() (string, error) }); ok {
					_, _ = d.DOT()
				}
			}
		},
		visible: func() map[int]bool {
			m := map[int]bool{}
			ns, err := g.Nodes(bg)
			must(err)
			for _, n := range ns {
				tags(n.Attrs(), m)
			}
			es, err := g.Edges(bg)
			must(err)
			for _, e := range es {
				tags(e.Attrs(), m)
			}
			return m
		},
	}
}

func mkGraph(kind int) memgraph.Graph {
	if kind == 0 {
		g, err := memgraph.NewWUG()
		must(err)
		return g
	}
	g, err := memgraph.NewWDG()
	must(err)
	return g
}

func memStore(kind int, f *follower) *memRun {
	g := mkGraph(kind)
	s, err := memstore.NewStore(memstore.WithGraph(g))
	must(err)
	ent := func(i int) store.Entity {
		a, tag := f.attrs(fmt.Sprintf("entity u%d", i))
		e := &mEnt{memU(i), a, tag}
		follow(f, tag, fmt.Sprintf("entity u%d", i), e)
		return e
	}
	return &memRun{
		op: func(o MemOp) {
			u, v := memU(o.U), memU(o.V)
			switch o.Op {
			case "add":
				_ = s.Add(bg, ent(o.U))
			case "upsert":
				must(s.Add(bg, ent(o.U), store.WithUpsert()))
			case "bulkadd":
				var es []store.Entity
				for _, i := range o.L {
					es = append(es, ent(i))
				}
				if o.V%2 == 0 {
					must(s.BulkAdd(bg, es, store.WithUpsert()))
				} else {
					_ = s.BulkAdd(bg, es)
				}
			case "delete":
				must(s.Delete(bg, u))
			case "bulkdelete":
				must(s.BulkDelete(bg, memUs(o.L)))
			case "link":
				a, _ := f.attrs(fmt.Sprintf("the link of u%d and u%d", o.U, o.V))
				_ = s.Link(bg, u, v, store.WithAttrs(a))
			case "bulklink":
				a, _ := f.attrs(fmt.Sprintf("links of u%d", o.U))
				_ = s.BulkLink(bg, u, memUs(o.L), store.WithAttrs(a))
			case "unlink":
				_ = s.Unlink(bg, u, v)
			case "bulkunlink":
				_ = s.BulkUnlink(bg, u, memUs(o.L))
			case "get":
				_, _ = s.Get(bg, u)
				_, _ = s.BulkGet(bg, []uuid.UID{u, v})
			}
		},
		visible: func() map[int]bool {
			m := map[int]bool{}
			ns, err := g.Nodes(bg)
			must(err)
			for _, n := range ns {
				if a, ok := n.Attrs().(*mAttrs); ok {
					m[a.tag] = true
				}
			}
			es, err := g.Edges(bg)
			must(err)
			for _, e := range es {
				if a, ok := e.Attrs().(*mAttrs); ok {
					m[a.tag] = true
				}
			}
			return m
		},
	}
}

// mLink is a cache.Link that can be told apart.
type mLink struct {
	cache.Link
	tag int
}

func memCache(_ int, f *follower) *memRun {
	c, err := memcache.NewLinks()
	must(err)
	mk := func(from, to int) cache.Link {
		l, err := link.New(memU(from), memU(to))
		must(err)
		tag := f.next()
		m := &mLink{l, tag}
		follow(f, tag, fmt.Sprintf("the link from u%d to u%d", from, to), m)
		return m
	}
	return &memRun{
		op: func(o MemOp) {
			u := memU(o.U)
			switch o.Op {
			case "put":
				must(c.Put(bg, mk(o.U, o.V)))
			case "upsert":
				must(c.Put(bg, mk(o.U, o.V), cache.WithUpsert()))
			case "bulkput":
				var ls []cache.Link
				for _, v := range o.L {
					ls = append(ls, mk(o.U, v))
				}
				must(c.BulkPut(bg, ls))
			case "delete":
				must(c.Delete(bg, u))
			case "bulkdelete":
				must(c.BulkDelete(bg, memUs(o.L)))
			case "clear":
				must(c.Clear(bg))
			case "get":
				_, err := c.GetFrom(bg, u)
				must(err)
				_, err = c.BulkGetTo(bg, []uuid.UID{u, memU(o.V)})
				must(err)
			}
		},
		visible: func() map[int]bool {
			m := map[int]bool{}
			for i := 0; i < 8; i++ {
				ls, err := c.GetFrom(bg, memU(i))
				must(err)
				for _, l := range ls {
					m[l.(*mLink).tag] = true
				}
				ls, err = c.GetTo(bg, memU(i))
				must(err)
				for _, l := range ls {
					m[l.(*mLink).tag] = true
				}
			}
			return m
		},
	}
}

type mRes struct {
	plan.Resource
	tag int
}

func memPlan(_ int, f *follower) *memRun {
	p, err := simple.NewSimple()
	must(err)
	return &memRun{
		op: func(o MemOp) {
			u := memU(o.U)
			switch o.Op {
			case "add":
				r, err := entity.NewResource("t", "n", "g", "v", "k", false, entity.WithUID(u))
				must(err)
				tag := f.next()
				x := &mRes{r, tag}
				follow(f, tag, fmt.Sprintf("resource u%d", o.U), x)
				must(p.Add(bg, x))
			case "delete":
				must(p.Delete(bg, u))
			case "get":
				_, _ = p.Get(bg, u)
				_, _ = p.GetAll(bg)
			}
		},
		visible: func() map[int]bool {
			m := map[int]bool{}
			rs, err := p.GetAll(bg)
			must(err)
			for _, r := range rs {
				m[r.(*mRes).tag] = true
			}
			return m
		},
	}
}

// ---- broker

func genMemBroker(t *rapid.T) MemCase {
	c := MemCase{Kind: pick(t, "cap", []int{1, 2, 3, 100, 100})}
	ops := []string{"pub", "pub", "pub", "recv", "recv", "recv", "sub", "sub", "unsub", "unsub", "drop"}
	if uni(t, 2, "sessions?") == 0 {
		ops = append(ops, "open", "open", "close", "cancel")
	}
	n := 1 + uni(t, 3, "topics")
	c.Ops = append([]MemOp{{Op: "open"}}, drawList(t, "ops", 1, 40, func(t *rapid.T) MemOp {
		return MemOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), U: uni(t, n, "u"), V: uni(t, 8, "v")}
	})...)
	return c
}

type mCtx struct{ pad [64]byte }

type mSub struct {
	s     broker.Subscriber
	tag   int
	topic int
	ended bool
}

func runMemBroker(c MemCase, r *R) error {
	return bubble(r, func() error {
		f := &follower{}
		b, err := membroker.New(broker.WithCap(c.Kind))
		if err != nil {
			return err
		}
		visible := map[int]bool{} // the session's context, queued messages, subscriptions not ended
		topics := map[int]bool{}
		var subs []*mSub
		subTags := map[int]bool{}
		queues := map[int][]int{}
		open, last := 0, 0
		done := 0
		var cancel context.CancelFunc = func() {}
		defer func() {
			cancel()
			_ = b.Close()
		}()
		ctxOf := func(what string) (context.Context, int) {
			tag := f.next()
			x := &mCtx{}
			follow(f, tag, "the context of "+what, x)
			return context.WithValue(bg, ctxKey{}, x), tag
		}
		end := func() {
			if open == 0 {
				return
			}
			delete(visible, open)
			open = 0
			for _, q := range queues {
				for _, tag := range q {
					delete(visible, tag)
					done++
				}
			}
			queues, topics = map[int][]int{}, map[int]bool{}
			// the caller may keep handles of subscriptions of that session
			for _, s := range subs {
				s.ended = true
				delete(visible, s.tag)
			}
			subs = nil
			cancel = func() {}
		}
		for i, o := range c.Ops {
			topic := fmt.Sprintf("t%d", o.U)
			var what string
			err := apart(func() error {
				switch o.Op {
				case "open":
					ctx, tag := ctxOf(fmt.Sprintf("the session opened by op %d", i))
					ctx, stop := context.WithCancel(ctx)
					if open != 0 {
						defer stop()
						return b.Open(ctx)
					}
					open, last, cancel = tag, tag, stop
					if err := b.Open(ctx); err != nil {
						return err
					}
					visible[tag] = true
				case "close":
					if err := b.Close(); err != nil {
						return err
					}
					cancel()
					end()
				case "cancel":
					cancel()
					synctest.Wait()
					end()
				case "pub":
					full := len(queues[o.U]) >= c.Kind // the publish times out
					ctx, _ := ctxOf(fmt.Sprintf("publish %d", i))
					data := make([]byte, 64)
					tag := f.next()
					follow(f, tag, fmt.Sprintf("the payload of message %d", i), &data[0])
					err := b.Pub(ctx, topic, broker.Message{UID: topic, Type: broker.Entity, Data: data}, broker.WithPubTimeout(time.Millisecond))
					if (err == nil) != (open != 0 && !full) {
						return fmt.Errorf("publish: %v", err)
					}
					if err == nil {
						visible[tag], topics[o.U] = true, true
						queues[o.U] = append(queues[o.U], tag)
					} else if open != 0 {
						topics[o.U] = true
					}
				case "sub":
					ctx, _ := ctxOf(fmt.Sprintf("subscription %d", i))
					s, err := b.Sub(ctx, topic)
					if (err == nil) != (open != 0) {
						return fmt.Errorf("subscribe: %v", err)
					}
					if err == nil {
						tag := f.next()
						if s, ok := s.(*membroker.Subscriber); ok {
							follow(f, tag, fmt.Sprintf("subscription %d", i), s)
						}
						visible[tag], topics[o.U], subTags[tag] = true, true, true
						subs = append(subs, &mSub{s: s, tag: tag, topic: o.U})
					}
				case "recv":
					if len(subs) == 0 {
						return nil
					}
					s := subs[o.V%len(subs)]
					ctx, _ := ctxOf(fmt.Sprintf("receive %d", i))
					q := queues[s.topic]
					got := 0
					x := &mCtx{}
					follow(f, f.next(), fmt.Sprintf("the handler of receive %d", i), x)
					err := s.s.Receive(ctx, func(context.Context, broker.Message) error { x.pad[0]++; got++; return nil }, broker.WithSubTimeout(time.Millisecond))
					if (err == nil) != (len(q) > 0) || got != min(1, len(q)) {
						return fmt.Errorf("receive with %d messages waiting: %d handled, %v", len(q), got, err)
					}
					if err == nil {
						delete(visible, q[0])
						queues[s.topic] = q[1:]
						done++
					}
				case "unsub", "drop":
					if len(subs) == 0 {
						return nil
					}
					k := o.V % len(subs)
					s := subs[k]
					if o.Op == "drop" {
						// dropped without being ended: the broker may keep it
						subs = slices.Delete(subs, k, k+1)
						return nil
					}
					ctx, _ := ctxOf(fmt.Sprintf("unsubscribing %d", i))
					if err := s.s.Unsubscribe(ctx); err != nil {
						return err
					}
					s.ended = true
					delete(visible, s.tag)
					subs = slices.Delete(subs, k, k+1)
					done++
				}
				return nil
			})
			if err != nil {
				return fmt.Errorf("op %d (%s %s): %w", i, o.Op, what, err)
			}
		}
		synctest.Wait()
		if done > 0 {
			r.NonTrivial()
		}
		live := 0 // subscriptions not ended, dropped ones included
		for tag := range visible {
			if subTags[tag] {
				live++
			}
		}
		if gs, most := leaked(), 2+len(topics)+live; open != 0 && len(gs) > most || open == 0 && len(gs) > 0 {
			return fmt.Errorf("%d goroutines of the broker are left with %d topics and %d subscriptions:\n%s", len(gs), len(topics), live, clip(fmt.Sprint(gs), 3000))
		}
		// the context of one session may stay until the next one begins
		visible[last] = true
		err = f.settle(visible)
		runtime.KeepAlive(b)
		runtime.KeepAlive(subs)
		return err
	})
}
