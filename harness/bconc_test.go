package harness

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"pgregory.net/rapid"
)

func init() {
	register("B02", Part("flows", 3000, 60000, "one to three topics with up to four publishers of up to 30 messages and up to four receivers each, capacity 0 to 100, subscribing before or meanwhile, others opening, subscribing and unsubscribing meanwhile; free-running under the race detector, in virtual time; non-trivial: three or more goroutines publish and receive on one topic", genFlow, runFlow))
	bops := []string{"pub", "pub", "pub", "sub", "open", "open", "close", "close", "unsub"}
	bsetup := func(t *rapid.T) []COp {
		ops := []COp{{Op: "open"}}
		for i := uni(t, 3, "pubs"); i > 0; i-- {
			ops = append(ops, COp{Op: "pub", U: uni(t, 3, "u")})
		}
		return ops
	}
	register("B04",
		Part("schedules", 1200, 30000, schedRule, genConc(bops, 1, 3, bsetup, "sched"), runConc(newBConc, nil)),
		Part("free", 1500, 40000, freeRule, genConc(bops, 1, 3, bsetup, "free", "race", "race"), runConc(newBConc, nil)),
		Part("swift", 4000, 80000, "up to 30 calls that one goroutine makes without a pause: opening with contexts of its own, ending contexts (also those of earlier sessions), closing, publishing, subscribing and receiving; a session must be open until it is closed or its own context ends, and closed after; non-trivial: the context of an earlier session ends while a later one is open", genSwift, runSwift))
	register("B05", Part("storms", 2500, 50000, "up to five publishers and five receivers on up to two topics that go on until they fail, each at its own pace; the session ends by close, by its context or both at once, at a generated moment, and may be opened and ended again by others; all must return at once and nothing may be left; under the race detector; non-trivial: a call was waiting or running when the session ended", genStorm, runStorm))
	register("B06", Part("storms", 2500, 50000, "up to four goroutines ending one subscription at once while others receive on it, on another subscription of the topic and publish; under the race detector; non-trivial: several goroutines end it", genEnding, runEnding))
}

// ---- B02

// FlowCase is a set of flows through one broker.
type FlowCase struct {
	Cap    int    `json:"cap"`
	Topics []Flow `json:"topics"`
	// Pre subscribes before anything is published.
	Pre bool `json:"pre"`
	// Noise goroutines open, subscribe and unsubscribe meanwhile.
	Noise int `json:"noise,omitempty"`
	Yield int `json:"yield"`
}

// Flow is one topic: messages per publisher, and the receivers, of which those
// with the same number share a subscription. Share says how many messages each
// receiver takes in turn.
type Flow struct {
	Pubs  []int `json:"pubs"`
	Recvs []int `json:"recvs"`
	// Leave adds receivers whose subscription or receive is ended by another
	// goroutine meanwhile. What they have not taken is for the others.
	Leave []Leaver `json:"leave,omitempty"`
	// Fickle adds publishers whose contexts end meanwhile.
	Fickle []Leaver `json:"fickle,omitempty"`
}

// Leaver goes after a number of steps of its ender, by the end of its
// subscription or of its context.
type Leaver struct {
	After int  `json:"after"`
	Ctx   bool `json:"ctx,omitempty"`
}

func genFlow(t *rapid.T) FlowCase {
	c := FlowCase{Cap: pick(t, "cap", []int{0, 0, 1, 1, 2, 3, 7, 100, -1}), Pre: rapid.Bool().Draw(t, "pre"), Yield: uni(t, 4, "yield"), Noise: uni(t, 3, "noise")}
	for i := 1 + uni(t, 3, "topics"); i > 0; i-- {
		var f Flow
		for j := 1 + uni(t, 4, "pubs"); j > 0; j-- {
			f.Pubs = append(f.Pubs, 1+uni(t, 30, "n"))
		}
		for j := 1 + uni(t, 4, "recvs"); j > 0; j-- {
			f.Recvs = append(f.Recvs, uni(t, 3, "sub"))
		}
		if rapid.Bool().Draw(t, "leave?") {
			one := rapid.Custom(func(t *rapid.T) Leaver {
				return Leaver{pick(t, "after", []int{0, 0, 1, 2, 5, 20, 60}), rapid.Bool().Draw(t, "ctx")}
			})
			f.Leave = rapid.SliceOfN(one, 0, 3).Draw(t, "leave")
			f.Fickle = rapid.SliceOfN(one, 0, 2).Draw(t, "fickle")
		}
		c.Topics = append(c.Topics, f)
	}
	return c
}

const long = 1000 * time.Hour

func flowTopic(i int) string { return []string{"a", "b", "c", "d"}[i%4] }

type flowRecv struct {
	quota int
	got   []string
	err   error
}

func runFlow(c FlowCase, r *R) error {
	busy, left, gone := false, false, false
	err := bubble(r, func() error {
		b, err := membroker.New(broker.WithCap(c.Cap))
		if err != nil {
			return err
		}
		if err := b.Open(bg); err != nil {
			return err
		}
		defer func() {
			_ = b.Close()
			time.Sleep(2 * long)
		}()
		var wg sync.WaitGroup
		spawn := func(f func() error, errp *error) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				*errp = safely(f)
			}()
		}
		pause := func(i int) {
			if c.Yield > 0 && i%c.Yield == 0 {
				runtime.Gosched()
			}
		}
		recvs := map[int][]*flowRecv{}
		var perrs []*error
		var starts []func()
		var stops []func()
		defer func() {
			for _, f := range stops {
				f()
			}
		}()
		newErr := func() *error {
			e := new(error)
			perrs = append(perrs, e)
			return e
		}
		var fickle sync.Mutex
		sent := make([]map[string]bool, len(c.Topics)) // whose publish succeeded
		for ti, f := range c.Topics {
			topic := flowTopic(ti)
			total := 0
			sent[ti] = map[string]bool{}
			for pi, n := range f.Pubs {
				total += n
				for i := 0; i < n; i++ {
					sent[ti][fmt.Sprintf("%d/%d/%d", ti, pi, i)] = true
				}
			}
			subs := map[int]*struct {
				once sync.Once
				s    broker.Subscriber
				err  error
			}{}
			for _, k := range f.Recvs {
				if subs[k] == nil {
					subs[k] = &struct {
						once sync.Once
						s    broker.Subscriber
						err  error
					}{}
				}
			}
			get := func(k int) (broker.Subscriber, error) {
				s := subs[k]
				s.once.Do(func() { s.s, s.err = b.Sub(bg, topic) })
				return s.s, s.err
			}
			if c.Pre {
				for k := range subs {
					if _, err := get(k); err != nil {
						return err
					}
				}
			}
			busy = busy || len(f.Pubs)+len(f.Recvs) > 2
			handler := func(fr *flowRecv) broker.Handler {
				return func(_ context.Context, m broker.Message) error {
					fr.got = append(fr.got, string(m.Data))
					return nil
				}
			}
			for ri, k := range f.Recvs {
				fr := &flowRecv{quota: total / len(f.Recvs)}
				if ri < total%len(f.Recvs) {
					fr.quota++
				}
				recvs[ti] = append(recvs[ti], fr)
				starts = append(starts, func() {
					spawn(func() error {
						s, err := get(k)
						if err != nil {
							return err
						}
						// when nobody knows how many messages there are for whom, those
						// who stay go on until nothing has come for long
						open := len(f.Leave)+len(f.Fickle) > 0
						for i := 0; open; i++ {
							pause(i + ri)
							n := len(fr.got)
							err := s.Receive(bg, handler(fr), broker.WithSubTimeout(long/2))
							if errors.Is(err, broker.ErrTimeout) && len(fr.got) == n {
								return nil
							}
							if err != nil {
								return fmt.Errorf("receive %d on %q: %w", i+1, topic, err)
							}
						}
						for i := 0; i < fr.quota; i++ {
							pause(i + ri)
							if err := s.Receive(bg, handler(fr), broker.WithSubTimeout(long)); err != nil {
								return fmt.Errorf("receive %d of %d on %q: %w", i+1, fr.quota, topic, err)
							}
						}
						return nil
					}, &fr.err)
				})
			}
			for li, l := range f.Leave {
				fr := &flowRecv{}
				recvs[ti] = append(recvs[ti], fr)
				left = true
				s, err := b.Sub(bg, topic)
				if err != nil {
					return err
				}
				ctx, cancel := context.WithCancel(context.Background())
				stops = append(stops, cancel)
				starts = append(starts, func() {
					spawn(func() error {
						for i := 0; ; i++ {
							pause(i + li)
							n := len(fr.got)
							err := s.Receive(ctx, handler(fr), broker.WithSubTimeout(long))
							switch {
							case err == nil && len(fr.got) > n:
							case err == nil:
								return fmt.Errorf("a receive returned without error and without a message")
							case len(fr.got) > n:
								return fmt.Errorf("a receive handled a message and failed: %w", err)
							case l.Ctx && errors.Is(err, context.Canceled), !l.Ctx && errors.Is(err, broker.ErrSubscriptionInactive):
								return nil
							default:
								return fmt.Errorf("a receive whose subscription or context was ended: %w", err)
							}
						}
					}, &fr.err)
					spawn(func() error {
						for i := 0; i < l.After; i++ {
							runtime.Gosched()
						}
						if l.Ctx {
							cancel()
							return nil
						}
						return s.Unsubscribe(bg)
					}, newErr())
				})
			}
			for pi, n := range f.Pubs {
				perr := newErr()
				starts = append(starts, func() {
					spawn(func() error {
						for i := 0; i < n; i++ {
							pause(i + pi)
							m := broker.Message{UID: "m", Data: []byte(fmt.Sprintf("%d/%d/%d", ti, pi, i))}
							if err := b.Pub(bg, topic, m, broker.WithPubTimeout(long)); err != nil {
								return fmt.Errorf("publish %d of %d on %q: %w", i+1, n, topic, err)
							}
						}
						return nil
					}, perr)
				})
			}
			for fi, l := range f.Fickle {
				gone = true
				pi := len(f.Pubs) + fi
				ctx, cancel := context.WithCancel(context.Background())
				stops = append(stops, cancel)
				var done []string
				perr := newErr()
				starts = append(starts, func() {
					spawn(func() error {
						defer func() {
							fickle.Lock()
							defer fickle.Unlock()
							for _, d := range done {
								sent[ti][d] = true
							}
						}()
						for i := 0; i < 10000; i++ {
							pause(i + pi)
							id := fmt.Sprintf("%d/%d/%d", ti, pi, i)
							err := b.Pub(ctx, topic, broker.Message{UID: "m", Data: []byte(id)}, broker.WithPubTimeout(long))
							if errors.Is(err, context.Canceled) {
								return nil
							}
							if err != nil {
								return fmt.Errorf("a publish whose context was ended: %w", err)
							}
							done = append(done, id)
						}
						return nil
					}, perr)
					spawn(func() error {
						for i := 0; i < l.After; i++ {
							runtime.Gosched()
						}
						cancel()
						return nil
					}, newErr())
				})
			}
		}
		for i := 0; i < c.Noise; i++ {
			perr := newErr()
			starts = append(starts, func() {
				spawn(func() error {
					for k := 0; k < 6; k++ {
						if err := b.Open(bg); err != nil {
							return err
						}
						s, err := b.Sub(bg, flowTopic(k+i))
						if err != nil {
							return err
						}
						runtime.Gosched()
						if err := s.Unsubscribe(bg); err != nil {
							return err
						}
					}
					return nil
				}, perr)
			})
		}
		for _, f := range starts {
			f()
		}
		wg.Wait()
		for _, e := range perrs {
			if *e != nil {
				return fmt.Errorf("%w (%s)", *e, flowState(recvs))
			}
		}
		for ti, f := range c.Topics {
			next := map[string]int{} // messages of a publisher seen by all receivers
			for _, fr := range recvs[ti] {
				if fr.err != nil {
					return fmt.Errorf("%w (%s)", fr.err, flowState(recvs))
				}
				last := map[int]int{}
				for _, g := range fr.got {
					var a, p, i int
					if _, err := fmt.Sscanf(g, "%d/%d/%d", &a, &p, &i); err != nil || a != ti || p >= len(f.Pubs)+len(f.Fickle) {
						return fmt.Errorf("a receiver of topic %d got %q", ti, g)
					}
					if !sent[ti][g] {
						return fmt.Errorf("a receiver of topic %d got %s, whose publish did not succeed", ti, g)
					}
					if l, ok := last[p]; ok && i <= l {
						return fmt.Errorf("a receiver of topic %d got message %d of publisher %d after message %d", ti, i, p, l)
					}
					last[p] = i
					if next[g]++; next[g] > 1 {
						return fmt.Errorf("message %s was received %d times", g, next[g])
					}
				}
			}
			if len(next) != len(sent[ti]) {
				return fmt.Errorf("topic %d: %d of %d messages received", ti, len(next), len(sent[ti]))
			}
		}
		return nil
	})
	if busy {
		r.NonTrivial()
	}
	r.LabelIf(c.Noise > 0, "others use the broker meanwhile")
	r.LabelIf(c.Cap == 0, "no capacity")
	r.LabelIf(!c.Pre, "subscribing meanwhile")
	r.LabelIf(left, "receivers leave meanwhile")
	r.LabelIf(gone, "publishers' contexts end meanwhile")
	return err
}

func flowState(recvs map[int][]*flowRecv) string {
	var out []string
	for _, t := range sortedInts(recvs) {
		for i, fr := range recvs[t] {
			out = append(out, fmt.Sprintf("topic %d receiver %d: %d of %d", t, i, len(fr.got), fr.quota))
		}
	}
	return strings.Join(out, ", ")
}

func sortedInts[V any](m map[int]V) (out []int) {
	for i := 0; i < 64; i++ {
		if _, ok := m[i]; ok {
			out = append(out, i)
		}
	}
	return
}

// ---- B04: opening, closing, publishing and subscribing concurrently

type bConc struct {
	s *scheduler
	b *membroker.Memory
}

func newBConc(c CCase, s *scheduler) (conSys, error) {
	b, err := membroker.New(broker.WithCap(200))
	return &bConc{s, b}, err
}

func (x *bConc) do(o COp, id string) string {
	hook := func(*broker.Options) { x.s.yield() }
	to := broker.WithPubTimeout(long)
	topic := flowTopic(o.U)
	conn := func(err error) string {
		if errors.Is(err, broker.ErrNotConnected) {
			return "closed"
		}
		return errStr(err)
	}
	switch o.Op {
	case "open":
		return errStr(x.b.Open(bg, hook))
	case "close":
		return errStr(x.b.Close())
	case "pub":
		return conn(x.b.Pub(bg, topic, broker.Message{UID: id}, hook, to))
	case "sub", "unsub":
		s, err := x.b.Sub(bg, topic, hook)
		if err == nil && o.Op == "unsub" {
			err = s.Unsubscribe(bg)
		}
		return conn(err)
	case "final":
		// a last message on each topic shows what is there
		var out []string
		for i := 0; i < 3; i++ {
			if err := x.b.Pub(bg, flowTopic(i), broker.Message{UID: "last"}, to); err != nil {
				out = append(out, conn(err))
				continue
			}
			s, err := x.b.Sub(bg, flowTopic(i))
			if err != nil {
				return err.Error()
			}
			var got []string
			for len(got) == 0 || got[len(got)-1] != "last" {
				err := s.Receive(bg, func(_ context.Context, m broker.Message) error {
					got = append(got, m.UID)
					return nil
				}, broker.WithSubTimeout(long))
				if err != nil {
					return err.Error()
				}
			}
			out = append(out, fmt.Sprint(got))
		}
		return errStr(x.b.Close()) + strings.Join(out, " ")
	}
	panic("op " + o.Op)
}

func (x *bConc) model() conModel { return &bMini{} }

type bMini struct {
	open bool
	q    [3][]string
}

func (m *bMini) clone() conModel {
	c := &bMini{open: m.open}
	for i, q := range m.q {
		c.q[i] = append([]string(nil), q...)
	}
	return c
}

func (m *bMini) key() string { return fmt.Sprint(m.open, m.q) }

func (m *bMini) step(o COp, id string) string {
	switch o.Op {
	case "open":
		m.open = true
		return "ok"
	case "close":
		*m = bMini{}
		return "ok"
	case "final":
		var out []string
		for _, q := range m.q {
			if !m.open {
				out = append(out, "closed")
				continue
			}
			out = append(out, fmt.Sprint(append(append([]string(nil), q...), "last")))
		}
		return "ok" + strings.Join(out, " ")
	}
	if !m.open {
		return "closed"
	}
	if o.Op == "pub" {
		m.q[o.U] = append(m.q[o.U], id)
	}
	return "ok"
}

// ---- B05

// StormCase ends sessions in the middle of things.
type StormCase struct {
	Cap   int     `json:"cap"`
	Pubs  []Storm `json:"pubs"`
	Recvs []Storm `json:"recvs"`
	// Ends lists how the session is ended: close, ctx; several at once.
	Ends []string `json:"ends"`
	At   int      `json:"at"`
	// Same ends it at an instant at which the others act, too.
	Same bool `json:"same,omitempty"`
	// Subs subscriptions are ended as well: all at once before the session's
	// end, with it, or after it (When -1, 0, 1).
	Subs int `json:"subs,omitempty"`
	When int `json:"when,omitempty"`
	// Again opens and closes the broker afterwards, concurrently.
	Again int `json:"again,omitempty"`
}

// Storm is one goroutine: its topic and pace (0: as fast as it can; else
// microseconds between operations).
type Storm struct {
	T    int `json:"t"`
	Pace int `json:"pace"`
}

func genStorm(t *rapid.T) StormCase {
	c := StormCase{Cap: pick(t, "cap", []int{0, 0, 1, 2, 5}), At: pick(t, "at", []int{0, 1, 2, 5, 10, 50, 1000}), Again: pick(t, "again", []int{0, 0, 1, 3}), Same: rapid.Bool().Draw(t, "same")}
	if pct(t, 12, "subs?") {
		c.Subs = pick(t, "subs", []int{1, 3, 99, 101, 130, 250})
		c.When = uni(t, 3, "when") - 1
	}
	one := rapid.Custom(func(t *rapid.T) Storm {
		return Storm{uni(t, 2, "t"), pick(t, "pace", []int{1, 1, 2, 3, 7})}
	})
	c.Pubs = rapid.SliceOfN(one, 0, 5).Draw(t, "pubs")
	c.Recvs = rapid.SliceOfN(one, 0, 5).Draw(t, "recvs")
	c.Ends = rapid.SliceOfN(rapid.SampledFrom([]string{"close", "ctx"}), 1, 3).Draw(t, "ends")
	return c
}

func runStorm(c StormCase, r *R) error {
	held := false
	err := bubble(r, func() error {
		b, err := membroker.New(broker.WithCap(c.Cap))
		if err != nil {
			return err
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if err := b.Open(ctx); err != nil {
			return err
		}
		defer func() {
			_ = b.Close()
			time.Sleep(2 * long)
		}()
		type out struct {
			end  time.Time
			ids  []string
			err  error
			bad  error
			zero int
		}
		var wg sync.WaitGroup
		pubs, recvs := make([]*out, len(c.Pubs)), make([]*out, len(c.Recvs))
		var done atomic.Int32
		for i, p := range c.Pubs {
			o := &out{}
			pubs[i] = o
			wg.Add(1)
			go func() {
				defer wg.Done()
				o.bad = safely(func() error {
					for k := 0; ; k++ {
						id := fmt.Sprintf("%d.%d", i, k)
						if o.err = b.Pub(bg, flowTopic(p.T), broker.Message{UID: id}, broker.WithPubTimeout(long)); o.err != nil {
							break
						}
						o.ids = append(o.ids, fmt.Sprintf("%d/%s", p.T, id))
						time.Sleep(time.Duration(p.Pace) * time.Microsecond)
					}
					return nil
				})
				o.end = time.Now()
				done.Add(1)
			}()
		}
		for i, q := range c.Recvs {
			s, err := b.Sub(bg, flowTopic(q.T))
			if err != nil {
				return err
			}
			o := &out{}
			recvs[i] = o
			wg.Add(1)
			go func() {
				defer wg.Done()
				o.bad = safely(func() error {
					for {
						n := len(o.ids)
						if o.err = s.Receive(bg, func(_ context.Context, m broker.Message) error {
							o.ids = append(o.ids, fmt.Sprintf("%d/%s", q.T, m.UID))
							return nil
						}, broker.WithSubTimeout(long)); o.err != nil {
							if len(o.ids) != n {
								return fmt.Errorf("a receive handled a message and returned %w", o.err)
							}
							return nil
						}
						if len(o.ids) == n {
							return fmt.Errorf("a receive returned without error and without a message")
						}
						time.Sleep(time.Duration(q.Pace) * time.Microsecond)
					}
				})
				o.end = time.Now()
				done.Add(1)
			}()
		}
		var subs []broker.Subscriber
		for i := 0; i < c.Subs; i++ {
			s, err := b.Sub(bg, flowTopic(i%3))
			if err != nil {
				return err
			}
			subs = append(subs, s)
		}
		at := time.Duration(c.At) * time.Microsecond
		if !c.Same {
			at += 500 * time.Nanosecond
		}
		time.Sleep(at)
		if done.Load() > 0 {
			for _, o := range append(append([]*out{}, pubs...), recvs...) {
				if o.bad != nil {
					return o.bad
				}
			}
			return fmt.Errorf("calls failed before the session ended")
		}
		endAt := time.Now()
		var eg sync.WaitGroup
		errs := make([]error, len(c.Ends)+c.Again+2)
		unsubscribe := func() error {
			for _, s := range subs {
				if err := s.Unsubscribe(bg); err != nil {
					return err
				}
			}
			return nil
		}
		switch {
		case c.When < 0:
			if err := unsubscribe(); err != nil {
				return err
			}
		case c.When == 0:
			eg.Add(1)
			go func() {
				defer eg.Done()
				errs[len(errs)-1] = safely(unsubscribe)
			}()
		}
		for i, e := range c.Ends {
			eg.Add(1)
			go func() {
				defer eg.Done()
				errs[i] = safely(func() error {
					if e == "ctx" {
						cancel()
						return nil
					}
					return b.Close()
				})
			}()
		}
		eg.Wait()
		if c.When > 0 {
			errs[len(errs)-2] = safely(unsubscribe)
		}
		synctest.Wait()
		// nobody may go on: the paces let every goroutine make one more call
		time.Sleep(10 * time.Microsecond)
		synctest.Wait()
		if n := int(done.Load()); n < len(pubs)+len(recvs) {
			return fmt.Errorf("%d of %d goroutines are still in a call after the session ended", len(pubs)+len(recvs)-n, len(pubs)+len(recvs))
		}
		wg.Wait()
		published, seen := map[string]bool{}, map[string]bool{}
		for _, o := range append(append([]*out{}, pubs...), recvs...) {
			if o.bad != nil {
				return o.bad
			}
			if o.end.Equal(endAt) {
				held = true
			}
			if errors.Is(o.err, broker.ErrTimeout) {
				return fmt.Errorf("a call of an ended session timed out")
			}
		}
		for _, o := range pubs {
			for _, id := range o.ids {
				published[id] = true
			}
		}
		for _, o := range recvs {
			for _, id := range o.ids {
				if seen[id] {
					return fmt.Errorf("message %s was received twice", id)
				}
				if !published[id] {
					return fmt.Errorf("message %s was received, but its publish did not succeed", id)
				}
				seen[id] = true
			}
		}
		if left := leaked(); len(left) > 0 {
			return fmt.Errorf("the session is over and all calls have returned, but a goroutine of the broker is left:\n%s", clip(left[0], 1500))
		}
		for i := 0; i < c.Again; i++ {
			eg.Add(1)
			go func() {
				defer eg.Done()
				errs[len(c.Ends)+i] = safely(func() error {
					for k := 0; k < 3; k++ {
						if err := b.Open(bg); err != nil {
							return err
						}
						// the others may close it meanwhile
						if err := b.Pub(bg, "a", broker.Message{}, broker.WithPubTimeout(time.Second)); err != nil && !errors.Is(err, broker.ErrNotConnected) && !errors.Is(err, broker.ErrTimeout) {
							return err
						}
						if err := b.Close(); err != nil {
							return err
						}
					}
					return nil
				})
			}()
		}
		eg.Wait()
		if err := errors.Join(errs...); err != nil {
			return err
		}
		_ = b.Close()
		synctest.Wait()
		if left := leaked(); len(left) > 0 {
			return fmt.Errorf("all sessions are over, but a goroutine of the broker is left:\n%s", clip(left[0], 1500))
		}
		return nil
	})
	if held {
		r.NonTrivial()
	}
	r.LabelIf(c.Again > 0, "opened and closed again by several")
	r.LabelIf(c.Subs > 0, "subscriptions ended around the end of the session")
	r.LabelIf(len(c.Ends) > 1, "ended in several ways at once")
	return err
}

// ---- B06

// EndingCase ends one subscription from several goroutines at once.
type EndingCase struct {
	Cap    int  `json:"cap"`
	Enders int  `json:"enders"`
	Twice  bool `json:"twice"`
	Recvs  int  `json:"recvs"`
	Msgs   int  `json:"msgs"`
	At     int  `json:"at"`
	// Same ends it at an instant at which the others act, too.
	Same bool `json:"same,omitempty"`
}

func genEnding(t *rapid.T) EndingCase {
	return EndingCase{Cap: pick(t, "cap", []int{0, 0, 1, 2, 100}), Enders: 1 + uni(t, 4, "enders"), Twice: rapid.Bool().Draw(t, "twice"), Recvs: uni(t, 4, "recvs"), Msgs: uni(t, 25, "msgs"), At: pick(t, "at", []int{0, 0, 1, 3, 9, 40}), Same: rapid.Bool().Draw(t, "same")}
}

func runEnding(c EndingCase, r *R) error {
	err := bubble(r, func() error {
		b, err := membroker.New(broker.WithCap(c.Cap))
		if err != nil {
			return err
		}
		if err := b.Open(bg); err != nil {
			return err
		}
		defer func() {
			_ = b.Close()
			time.Sleep(2 * long)
		}()
		dying, err := b.Sub(bg, "a")
		if err != nil {
			return err
		}
		other, err := b.Sub(bg, "a")
		if err != nil {
			return err
		}
		errs := make([]error, c.Recvs+c.Enders+2)
		ids := make([][]string, c.Recvs+1)
		var total atomic.Int32
		var ended atomic.Bool
		var wg sync.WaitGroup
		spawn := func(i int, f func() error) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = safely(f)
			}()
		}
		octx, ostop := context.WithCancel(context.Background())
		defer ostop()
		receive := func(ctx context.Context, i int, s broker.Subscriber) error {
			n := len(ids[i])
			err := s.Receive(ctx, func(_ context.Context, m broker.Message) error {
				ids[i] = append(ids[i], m.UID)
				return nil
			}, broker.WithSubTimeout(long))
			if err == nil && len(ids[i]) == n {
				return fmt.Errorf("a receive returned without error and without a message")
			}
			if len(ids[i]) > n {
				if int(total.Add(1)) == c.Msgs {
					ostop()
				}
				return err
			}
			if err == nil {
				err = fmt.Errorf("no message and no error")
			}
			return stop{err}
		}
		for i := 0; i < c.Recvs; i++ {
			spawn(i, func() error {
				for {
					after := ended.Load()
					n := len(ids[i])
					err := receive(bg, i, dying)
					if after && len(ids[i]) > n {
						return fmt.Errorf("a receive took a message after the subscription had been ended")
					}
					var st stop
					switch {
					case err == nil:
					case errors.As(err, &st):
						if after && !errors.Is(st.error, broker.ErrSubscriptionInactive) {
							return fmt.Errorf("receiving on an ended subscription gives %w", st.error)
						}
						if after {
							return nil
						}
						runtime.Gosched()
						if !ended.Load() {
							time.Sleep(time.Microsecond)
						}
					default:
						return err
					}
					if !after {
						time.Sleep(time.Microsecond)
					}
				}
			})
		}
		if c.Msgs == 0 {
			ostop()
		}
		spawn(c.Recvs+c.Enders, func() error {
			for {
				err := receive(octx, c.Recvs, other)
				var st stop
				if errors.As(err, &st) {
					if octx.Err() != nil {
						return nil
					}
					return fmt.Errorf("the other subscription: %w", st.error)
				}
				if err != nil {
					return err
				}
			}
		})
		spawn(c.Recvs+c.Enders+1, func() error {
			for k := 0; k < c.Msgs; k++ {
				if err := b.Pub(bg, "a", broker.Message{UID: fmt.Sprint(k)}, broker.WithPubTimeout(long)); err != nil {
					return err
				}
				time.Sleep(time.Microsecond)
			}
			return nil
		})
		at := time.Duration(c.At) * time.Microsecond
		if !c.Same {
			at += 500 * time.Nanosecond
		}
		time.Sleep(at)
		var eg sync.WaitGroup
		for i := 0; i < c.Enders; i++ {
			eg.Add(1)
			go func() {
				defer eg.Done()
				errs[c.Recvs+i] = safely(func() error {
					if err := dying.Unsubscribe(bg); err != nil {
						return err
					}
					if c.Twice {
						return dying.Unsubscribe(bg)
					}
					return nil
				})
			}()
		}
		eg.Wait()
		ended.Store(true)
		wg.Wait()
		if err := errors.Join(errs...); err != nil {
			return err
		}
		seen := map[string]bool{}
		for _, l := range ids {
			for _, id := range l {
				if seen[id] {
					return fmt.Errorf("message %s was received twice", id)
				}
				seen[id] = true
			}
		}
		if len(seen) != c.Msgs {
			return fmt.Errorf("%d of %d messages were received", len(seen), c.Msgs)
		}
		return nil
	})
	if c.Enders > 1 {
		r.NonTrivial()
	}
	return err
}

// stop is a receive that handled nothing.
type stop struct{ error }

func (s stop) Unwrap() error { return s.error }

// ---- B04, swift

// SwiftCase is a sequence of calls with no pause between them.
type SwiftCase struct {
	Cap int       `json:"cap"`
	Ops []SwiftOp `json:"ops"`
}

// SwiftOp is one of open, end (the context of session N before the last),
// close, pub, sub, recv, yield and rest. Rest lets everything else go on.
type SwiftOp struct {
	Op string `json:"op"`
	N  int    `json:"n,omitempty"`
}

func genSwift(t *rapid.T) SwiftCase {
	ops := []string{"open", "open", "end", "end", "close", "close", "pub", "pub", "sub", "recv", "yield", "rest"}
	return SwiftCase{pick(t, "cap", []int{50, 100, -1}), drawList(t, "ops", 2, 30, func(t *rapid.T) SwiftOp {
		o := SwiftOp{Op: pick(t, "op", ops)}
		if o.Op == "end" {
			o.N = pick(t, "n", []int{0, 0, 1, 1, 1, 2, 5})
		}
		return o
	})}
}

func runSwift(c SwiftCase, r *R) error {
	stale := false
	err := bubble(r, func() error {
		b, err := membroker.New(broker.WithCap(c.Cap))
		if err != nil {
			return err
		}
		type session struct {
			ctx  context.Context
			stop context.CancelFunc
		}
		var opens []session
		defer func() {
			for _, o := range opens {
				o.stop()
			}
			_ = b.Close()
			time.Sleep(2 * long)
		}()
		// open: the session opened by the call cur is open. closed: there is
		// none. unsure: the context of a session has ended, so that it may be
		// over; again: and the broker was opened since, so that there may be a
		// new one.
		const (
			closed = iota
			open
			unsure
			again
		)
		state, cur := closed, -1
		queued := 0
		var sub broker.Subscriber
		subOf := -1
		pub := func() error { return b.Pub(bg, "a", broker.Message{UID: "m"}, broker.WithPubTimeout(long)) }
		recv := func() error {
			n := 0
			err := sub.Receive(bg, func(context.Context, broker.Message) error { n++; return nil }, broker.WithSubTimeout(time.Microsecond))
			if err == nil && n != 1 {
				return fmt.Errorf("a receive returned without error, having handled %d messages", n)
			}
			return err
		}
		ops := append(append([]SwiftOp{}, c.Ops...), SwiftOp{Op: "pub"}, SwiftOp{Op: "rest"}, SwiftOp{Op: "pub"}, SwiftOp{Op: "sub"}, SwiftOp{Op: "recv"})
		for i, o := range ops {
			fail := func(err error) error {
				return fmt.Errorf("call %d, %s, of\n  %v\nwith state %s of session %d: %w", i, o.Op, ops, []string{"closed", "open", "unsure", "opened again"}[state], cur, err)
			}
			switch o.Op {
			case "open":
				ctx, stop := context.WithCancel(bg)
				opens = append(opens, session{ctx, stop})
				if err := b.Open(ctx); err != nil {
					return fail(err)
				}
				switch state {
				case closed:
					state, cur, queued = open, len(opens)-1, 0
				case unsure, again:
					state = again
				}
			case "end":
				if k := len(opens) - 1 - o.N; k >= 0 {
					opens[k].stop()
					switch {
					case state == open && k == cur:
						state = unsure
					case state == open && k < cur:
						stale = true
					}
				}
			case "close":
				if err := b.Close(); err != nil {
					return fail(err)
				}
				state = closed
			case "pub":
				switch err := pub(); {
				case state == open && err != nil:
					return fail(err)
				case state == open:
					queued++
				case state == closed && !errors.Is(err, broker.ErrNotConnected):
					return fail(fmt.Errorf("the broker is closed, but publishing gives %v", err))
				}
			case "sub":
				s, err := b.Sub(bg, "a")
				switch {
				case state == open && err != nil:
					return fail(err)
				case state == closed && !errors.Is(err, broker.ErrNotConnected):
					return fail(fmt.Errorf("the broker is closed, but subscribing gives %v", err))
				}
				if err == nil {
					sub, subOf = s, -1
					if state == open {
						subOf = cur
					}
				}
			case "recv":
				if sub == nil {
					continue
				}
				err := recv()
				switch {
				case state == open && subOf == cur && queued > 0:
					if err != nil {
						return fail(fmt.Errorf("%d messages are queued: %w", queued, err))
					}
					queued--
				case state == open && subOf == cur && !errors.Is(err, broker.ErrTimeout):
					return fail(fmt.Errorf("nothing is queued, but receiving gives %v", err))
				case (state == closed || state == open && subOf >= 0) && subOf != cur && err == nil || state == closed && err == nil:
					return fail(fmt.Errorf("a receive took a message on a subscription of an ended session"))
				}
			case "yield":
				runtime.Gosched()
			case "rest":
				synctest.Wait()
				if state == unsure {
					state = closed
				}
			}
		}
		return nil
	})
	if stale {
		r.NonTrivial()
	}
	return err
}
