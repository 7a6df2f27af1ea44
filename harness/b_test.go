package harness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/milosgajdos/netscrape/pkg/broker"
	membroker "github.com/milosgajdos/netscrape/pkg/broker/memory"
	"pgregory.net/rapid"
)

// The broker checks run in a testing/synctest bubble: time is virtual and
// stands still while anything can run, so that each event of a case happens
// at an instant of its own, timeouts can be compared exactly, and a goroutine
// that is left blocked is seen. A discrete-event model then goes through the
// instants and, where the broker has a choice (which of several waiting
// receivers gets a message, which of several waiting publishers gets a slot),
// follows what was observed.

const (
	tick   = 20 * time.Nanosecond // between events of one millisecond
	half   = tick / 2             // contexts end at odd half ticks
	defTO  = 5 * time.Second      // the documented default timeout
	defCap = 100                  // the documented default capacity
)

// BrCase is a history of one broker.
type BrCase struct {
	Cap   int `json:"cap"`
	PubTO int `json:"pubto,omitempty"`
	// PubSub is added to PubTO, in tenths of a millisecond.
	PubSub int `json:"pubsub,omitempty"`
	// Noise is another timeout the broker is made with, which it does not use.
	Noise int    `json:"noise,omitempty"`
	Evs   []BrEv `json:"evs"`
	// Msgs says what the messages are like: 0 each with a UID of its own, 1 all
	// without one, 2 pairs with the same, 3 large ones.
	Msgs int `json:"msgs,omitempty"`
	// Size is the size of one in four large ones.
	Size int `json:"size,omitempty"`
	// Topics are the names of the topics, if not bTopics.
	Topics []string `json:"topics,omitempty"`
}

func (c *BrCase) topics() []string {
	if len(c.Topics) > 0 {
		return c.Topics
	}
	return bTopics
}

// BrEv is one event. Times are in milliseconds.
type BrEv struct {
	Gap int    `json:"gap"`
	Op  string `json:"op"`
	T   int    `json:"t"`
	S   int    `json:"s,omitempty"`
	TO  int    `json:"to,omitempty"`
	// Sub is added to TO, in tenths of a millisecond.
	Sub int `json:"sub,omitempty"`
	// Ctx: 0 background, 1 cancelable, 2 ends after CtxMs, 3 has ended, 4 an earlier one (S)
	Ctx   int    `json:"ctx,omitempty"`
	CtxMs int    `json:"ctxms,omitempty"`
	H     string `json:"h,omitempty"`
	HMs   int    `json:"hms,omitempty"`
	HT    int    `json:"ht,omitempty"`
	N     int    `json:"n,omitempty"`
	// Noise passes the option for the other kind of timeout as well, first if
	// it is odd.
	Noise int `json:"noise,omitempty"`
}

// tenths gives ms milliseconds and sub tenths of one. The ticks of a whole
// history are less than such a tenth, so that no two instants coincide.
func tenths(ms, sub int) time.Duration {
	return time.Duration(ms)*time.Millisecond + time.Duration(sub)*time.Millisecond/10
}

func (e BrEv) timeout() time.Duration { return tenths(e.TO, e.Sub) }

var bTopics = []string{"a", "b", "", "a/b", "A", "a ", "ab", "aa", "b/a", strings.Repeat("x", 300), strings.Repeat("x", 300) + "y", "日本", "\x00", "topic"}

// bubble runs f in a synctest bubble.
func bubble(r *R, f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			e := fmt.Errorf("the bubble ended: %v", p)
			if err != nil {
				e = err
			}
			err = e
		}
	}()
	synctest.Test(r.T, func(*testing.T) { err = safely(f) })
	return err
}

// ownGoroutines lists the goroutines of this bubble, other than the caller's,
// that are inside netscrape.
func leaked() []string {
	gs := snapshot()
	var mine string
	me := goid()
	for _, g := range gs {
		if g.id == me {
			mine = g.bubbleID
		}
	}
	var out []string
	for _, g := range gs {
		if g.bubbleID == mine && mine != "" && g.id != me && g.inPkg() {
			out = append(out, g.stack)
		}
	}
	return out
}

// ---- running

type bCtx struct {
	ctx    context.Context
	cancel context.CancelFunc
	at     time.Duration // when it ends by itself or was cancelled; never if negative
}

type bCtxKey struct{}

// tagged gives c a context that can be told from the others.
func (c *bCtx) tagged() *bCtx {
	c.ctx = context.WithValue(c.ctx, bCtxKey{}, c)
	return c
}

// is checks that ctx is c's or one derived from it: it carries c's values and
// ends when c does.
func (c *bCtx) is(ctx context.Context) error {
	if ctx == nil || ctx.Value(bCtxKey{}) != c {
		return fmt.Errorf("its handler ran under a context without the values of the one given to the receive")
	}
	err := ctx.Err()
	if c.ctx.Err() != nil && ctx.Err() == nil {
		return fmt.Errorf("its context has ended, but not that of its handler")
	}
	if err != nil && c.ctx.Err() == nil {
		return fmt.Errorf("the context of its handler has ended, but not its own")
	}
	return nil
}

// noise adds the option for the other kind of timeout.
func noise(opts []broker.Option, n int, o broker.Option) []broker.Option {
	switch {
	case n <= 0:
		return opts
	case n%2 > 0:
		return append([]broker.Option{o}, opts...)
	}
	return append(opts, o)
}

type bSub struct {
	n     int
	topic int
	h     broker.Subscriber
}

type bRec struct {
	id         int
	ev         BrEv
	op         string
	topic      int
	start, end time.Duration
	err        error
	panicked   string
	ctx        *bCtx
	sub        *bSub
	made       *bSub
	cancels    *bCtx
	msg        broker.Message // published
	nested     int            // operation made in the handler, or -1
	calls      int
	got        broker.Message
	taken      time.Duration
	hdone      time.Duration
	herr       error
	hctx       error // what is wrong with the context of the handler
	final      bool
}

type bRun struct {
	c    BrCase
	b    *membroker.Memory
	base time.Time
	mu   sync.Mutex
	recs []*bRec
	subs []*bSub
	ctxs []*bCtx
	n    int
	// topics are the topics' names
	topics []string
}

func (x *bRun) now() time.Duration { return time.Since(x.base) }

func mkMsg(i int) broker.Message {
	m := broker.Message{UID: fmt.Sprintf("m%d", i), Type: broker.Type(i%7 - 1)}
	switch i % 4 {
	case 0:
		m.Data = []byte(fmt.Sprintf("data %d", i))
	case 1:
		m.Data = []byte{}
	case 2:
		m.Data = append(make([]byte, 300), byte(i), 0, 255)
	}
	if i%3 > 0 {
		m.Attrs = map[string]string{"n": fmt.Sprint(i), "": "x"}
	}
	return m
}

// message makes the case's message i; no two of a case are the same.
func (c *BrCase) message(i int) broker.Message {
	m := mkMsg(i)
	switch c.Msgs {
	case 1:
		m.UID, m.Data = "", append([]byte(fmt.Sprintf("%d ", i)), m.Data...)
	case 2:
		m.UID, m.Data = fmt.Sprintf("m%d", i/2), append([]byte(fmt.Sprintf("%d ", i%2)), m.Data...)
	case 3:
		size := []int{1 << 10, 1<<12 + 1, 1 << 16, 70001}[i%4]
		if c.Size > 0 && i%4 == 3 {
			size = c.Size
		}
		m.Data = append(m.Data, make([]byte, size)...)
		m.Data[len(m.Data)/2] = byte(i)
		m.Attrs = map[string]string{}
		for j := 0; j < 40; j++ {
			m.Attrs[fmt.Sprint(j)] = fmt.Sprint(i, j)
		}
	}
	return m
}

func sameMsg(a, b broker.Message) bool {
	if a.UID != b.UID || a.Type != b.Type || string(a.Data) != string(b.Data) || len(a.Attrs) != len(b.Attrs) {
		return false
	}
	for k, v := range a.Attrs {
		if w, ok := b.Attrs[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func (x *bRun) rec(ev BrEv) *bRec {
	x.mu.Lock()
	defer x.mu.Unlock()
	r := &bRec{id: len(x.recs), ev: ev, op: ev.Op, topic: ev.T % len(x.topics), end: -1, taken: -1, nested: -1}
	x.recs = append(x.recs, r)
	return r
}

func (x *bRun) mkCtx(ev BrEv) *bCtx {
	switch ev.Ctx {
	case 1, 2, 3:
		c := &bCtx{at: -1}
		c.ctx, c.cancel = context.WithCancel(context.Background())
		switch ev.Ctx {
		case 2:
			d := time.Duration(ev.CtxMs)*time.Millisecond + half
			c.cancel()
			c.ctx, c.cancel = context.WithTimeout(context.Background(), d)
			c.at = x.now() + d
		case 3:
			c.cancel()
			c.at = x.now()
		}
		x.ctxs = append(x.ctxs, c)
		return c.tagged()
	case 4:
		if len(x.ctxs) > 0 {
			return x.ctxs[ev.S%len(x.ctxs)]
		}
	}
	return bgCtx()
}

func bgCtx() *bCtx {
	return (&bCtx{ctx: context.Background(), cancel: func() {}, at: -1}).tagged()
}

// perform carries out the operation of r.
func (x *bRun) perform(r *bRec) {
	defer func() {
		if p := recover(); p != nil {
			r.panicked = fmt.Sprint(p)
		}
		r.end = x.now()
	}()
	r.start = x.now()
	var opts []broker.Option
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	switch r.op {
	case "open":
		r.err = x.b.Open(r.ctx.ctx)
	case "close":
		r.err = x.b.Close()
	case "sub":
		s, err := x.b.Sub(r.ctx.ctx, x.topics[r.topic])
		if r.err = err; err == nil {
			r.made = &bSub{topic: r.topic, h: s}
			x.mu.Lock()
			r.made.n = len(x.subs)
			x.subs = append(x.subs, r.made)
			x.mu.Unlock()
		}
	case "pub":
		r.msg = x.c.message(r.id)
		if to := r.ev.timeout(); to > 0 {
			opts = append(opts, broker.WithPubTimeout(to))
		}
		opts = noise(opts, r.ev.Noise, broker.WithSubTimeout(ms(r.ev.Noise)))
		r.err = x.b.Pub(r.ctx.ctx, x.topics[r.topic], x.c.message(r.id), opts...)
	case "recv":
		if to := r.ev.timeout(); to > 0 {
			opts = append(opts, broker.WithSubTimeout(to))
		}
		opts = noise(opts, r.ev.Noise, broker.WithPubTimeout(ms(r.ev.Noise)))
		r.err = r.sub.h.Receive(r.ctx.ctx, func(ctx context.Context, m broker.Message) error {
			r.calls++
			r.got, r.taken = m, x.now()
			r.hctx = r.ctx.is(ctx)
			x.handler(r)
			if r.hctx == nil {
				r.hctx = r.ctx.is(ctx)
			}
			r.hdone = x.now()
			return r.herr
		}, opts...)
	case "unsub":
		var wg sync.WaitGroup
		errs := make([]error, r.ev.N+1)
		for i := range errs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[i] = safely(func() error { return r.sub.h.Unsubscribe(r.ctx.ctx) })
			}()
		}
		wg.Wait()
		r.err = errors.Join(errs...)
	}
}

// handlerErr is an error of its own for r, often one that wraps one the broker
// or others use.
func handlerErr(r *bRec) error {
	errs := []error{nil, nil, nil, broker.ErrTimeout, broker.ErrSubscriptionInactive, broker.ErrNotConnected, context.Canceled, context.DeadlineExceeded, io.EOF}
	base := errs[(r.ev.HMs+r.ev.HT+r.ev.S)%len(errs)]
	switch {
	case base == nil:
		return fmt.Errorf("handler of operation %d", r.id)
	case r.ev.S%2 == 0:
		return fmt.Errorf("handler of operation %d: %w", r.id, base)
	}
	return base
}

func (x *bRun) handler(r *bRec) {
	var n *bRec
	switch r.ev.H {
	case "err":
		r.herr = handlerErr(r)
	case "slow":
		time.Sleep(time.Duration(r.ev.HMs) * time.Millisecond)
	case "slowerr":
		time.Sleep(time.Duration(r.ev.HMs) * time.Millisecond)
		r.herr = handlerErr(r)
	case "unsub":
		n = x.rec(BrEv{Op: "unsub"})
		n.sub = r.sub
		n.ctx = r.ctx
	case "close":
		n = x.rec(BrEv{Op: "close"})
	case "pub":
		n = x.rec(BrEv{Op: "pub", T: r.ev.HT, TO: r.ev.HMs})
		n.ctx = bgCtx()
	}
	if n != nil {
		r.nested = n.id
		x.perform(n)
	}
}

// launch starts an event's operation at this instant.
func (x *bRun) launch(ev BrEv) *bRec {
	r := x.rec(ev)
	switch ev.Op {
	case "recv", "unsub":
		if len(x.subs) == 0 {
			r.op = "none"
			return r
		}
		r.sub = x.subs[ev.S%len(x.subs)]
		r.topic = r.sub.topic
	case "reopen": // closed and opened again before anyone else can do anything
		r.op = "close"
		o := x.rec(ev)
		o.op, o.ctx = "open", x.mkCtx(ev)
		go func() {
			x.perform(r)
			x.perform(o)
		}()
		return r
	case "cancel":
		if len(x.ctxs) == 0 {
			r.op = "none"
			return r
		}
		r.start, r.end = x.now(), x.now()
		r.cancels = x.ctxs[ev.S%len(x.ctxs)]
		if r.cancels.at < 0 || r.cancels.at > x.now() {
			r.cancels.at = x.now()
		}
		r.cancels.cancel()
		return r
	}
	r.ctx = x.mkCtx(ev)
	go x.perform(r)
	return r
}

// step waits for the next event's instant.
func (x *bRun) step(gap int) {
	x.n++
	time.Sleep(time.Duration(gap)*time.Millisecond + tick)
}

func runBroker(trivial func(*bSim) bool) func(BrCase, *R) error {
	return func(c BrCase, r *R) error {
		var s *bSim
		err := bubble(r, func() error {
			x := &bRun{c: c, base: time.Now(), topics: c.topics()}
			opts := []broker.Option{broker.WithCap(c.Cap)}
			if to := tenths(c.PubTO, c.PubSub); to > 0 {
				opts = append(opts, broker.WithPubTimeout(to))
			}
			opts = noise(opts, c.Noise, broker.WithSubTimeout(time.Duration(c.Noise)*time.Millisecond))
			b, err := membroker.New(opts...)
			if err != nil {
				return err
			}
			x.b = b
			defer func() {
				// let what is still waiting go, also after a failure
				for _, c := range x.ctxs {
					c.cancel()
				}
				_ = b.Close()
				time.Sleep(1000 * time.Hour)
			}()
			for _, ev := range c.Evs {
				x.step(ev.Gap)
				x.launch(ev)
				synctest.Wait()
			}
			// let everything end, then take what is left
			long := 0
			for _, ev := range c.Evs {
				long = max(long, ev.TO, ev.CtxMs, ev.HMs, c.PubTO)
			}
			time.Sleep(2*time.Minute + 2*time.Duration(long)*time.Millisecond)
			used := min(4, len(x.topics))
			for _, ev := range c.Evs {
				if used = max(used, ev.T+1, ev.HT+1); used > len(x.topics) {
					used = len(x.topics)
				}
			}
			for t := range x.topics[:used] {
				x.step(1)
				sub := x.launch(BrEv{Op: "sub", T: t})
				synctest.Wait()
				for i := 0; sub.made != nil && i < 300; i++ {
					x.step(1)
					rec := x.rec(BrEv{Op: "recv", T: t, TO: 3})
					rec.sub, rec.topic = sub.made, t
					rec.ctx = bgCtx()
					go x.perform(rec)
					time.Sleep(4 * time.Millisecond)
					synctest.Wait()
					if rec.err != nil || rec.end < 0 {
						break
					}
				}
			}
			x.step(1)
			x.launch(BrEv{Op: "close"})
			synctest.Wait()
			left := leaked()
			s = newBSim(c, x.recs)
			if err := s.run(); err != nil {
				return fmt.Errorf("%w\n%s", err, s.history())
			}
			if len(left) > 0 {
				return fmt.Errorf("the session is over and all calls have returned, but a goroutine of the broker is left:\n%s", clip(left[0], 1500))
			}
			return nil
		})
		if err == nil && s != nil {
			for k := range s.labels {
				r.Label(k)
			}
			if trivial == nil || !trivial(s) {
				r.NonTrivial()
			}
		}
		return err
	}
}

// ---- the model

type bSession struct {
	ctx   *bCtx
	ended bool
}

type bModelSub struct {
	sess   *bSession
	active bool
	topic  int
}

type bSim struct {
	c      BrCase
	cap    int
	recs   []*bRec
	cur    *bSession
	queues map[int][]*bRec
	pubs   map[*bRec]time.Duration // waiting, with deadline
	recvs  map[*bRec]time.Duration
	subs   map[*bSub]*bModelSub
	ids    map[string]bool
	labels map[string]bool
	taken  map[int]bool
	lastT  time.Duration
}

func newBSim(c BrCase, recs []*bRec) *bSim {
	s := &bSim{c: c, cap: c.Cap, recs: recs, queues: map[int][]*bRec{}, pubs: map[*bRec]time.Duration{}, recvs: map[*bRec]time.Duration{},
		subs: map[*bSub]*bModelSub{}, ids: map[string]bool{}, labels: map[string]bool{}, taken: map[int]bool{}}
	if s.cap < 0 {
		s.cap = defCap
	}
	return s
}

func (s *bSim) history() string {
	out := ""
	for i, r := range s.recs {
		if r.op == "none" {
			continue
		}
		if i > 60 {
			out += "  ...\n"
			break
		}
		out += fmt.Sprintf("  %s at %v, ended %v: error %v", s.name(r), r.start, r.end, r.err)
		if r.calls > 0 {
			out += fmt.Sprintf(", took %s at %v", r.got.UID, r.taken)
		}
		out += "\n"
	}
	return clip(out, 5000)
}

func (s *bSim) name(r *bRec) string {
	switch r.op {
	case "pub":
		return fmt.Sprintf("#%d pub m%d on %q", r.id, r.id, s.c.topics()[r.topic])
	case "recv", "unsub":
		return fmt.Sprintf("#%d %s on subscription %d of %q", r.id, r.op, r.sub.n, s.c.topics()[r.topic])
	case "sub":
		return fmt.Sprintf("#%d sub to %q", r.id, s.c.topics()[r.topic])
	}
	return fmt.Sprintf("#%d %s", r.id, r.op)
}

// ended checks that r returned at t.
func (s *bSim) ended(r *bRec, t time.Duration, why string) error {
	if r.panicked != "" {
		return fmt.Errorf("%s panicked: %s", s.name(r), r.panicked)
	}
	if r.end < 0 {
		return fmt.Errorf("%s has not returned; it should have at %v (%s)", s.name(r), t, why)
	}
	if r.end != t {
		return fmt.Errorf("%s returned at %v, not at %v (%s)", s.name(r), r.end, t, why)
	}
	return nil
}

// failed checks that r failed at t without a message; with want, with that error.
func (s *bSim) failed(r *bRec, t time.Duration, want error, why string) error {
	if r.calls > 0 {
		return fmt.Errorf("%s handed %s to its handler (%s)", s.name(r), r.got.UID, why)
	}
	if err := s.ended(r, t, why); err != nil {
		return err
	}
	if r.err == nil {
		return fmt.Errorf("%s returned no error (%s)", s.name(r), why)
	}
	if want != nil && !errors.Is(r.err, want) {
		return fmt.Errorf("%s returned %q, not %q (%s)", s.name(r), r.err, want, why)
	}
	return nil
}

func (s *bSim) succeeded(r *bRec, t time.Duration, why string) error {
	if err := s.ended(r, t, why); err != nil {
		return err
	}
	if r.err != nil {
		return fmt.Errorf("%s failed: %v (%s)", s.name(r), r.err, why)
	}
	return nil
}

// handled checks that recv r handed the message of pub p to its handler at t,
// and goes on with what the handler did.
func (s *bSim) handled(r, p *bRec, t time.Duration) error {
	if r.calls == 0 {
		return fmt.Errorf("%s did not hand m%d to its handler at %v", s.name(r), p.id, t)
	}
	if r.calls > 1 {
		return fmt.Errorf("%s called its handler %d times", s.name(r), r.calls)
	}
	if !sameMsg(r.got, p.msg) {
		return fmt.Errorf("%s handed %+v to its handler, want %+v", s.name(r), r.got, p.msg)
	}
	if r.taken != t {
		return fmt.Errorf("%s handed m%d to its handler at %v, not at %v", s.name(r), p.id, r.taken, t)
	}
	if s.taken[p.id] {
		return fmt.Errorf("%s got m%d again", s.name(r), p.id)
	}
	s.taken[p.id] = true
	s.labels["message handled"] = true
	if r.nested >= 0 {
		s.labels["handler uses the broker"] = true
		if err := s.primary(s.recs[r.nested]); err != nil {
			return err
		}
	}
	return nil
}

// afterHandler checks the returns of receives that handled a message; it runs
// at the end, when all handlers are known to have returned.
func (s *bSim) afterHandlers() error {
	for _, r := range s.recs {
		if r.op != "recv" || r.calls == 0 {
			continue
		}
		if err := s.ended(r, r.hdone, "its handler had returned"); err != nil {
			return err
		}
		if r.hctx != nil {
			return fmt.Errorf("%s: %w", s.name(r), r.hctx)
		}
		if r.herr == nil && r.err != nil || r.herr != nil && !errors.Is(r.err, r.herr) {
			return fmt.Errorf("%s returned %v, its handler returned %v", s.name(r), r.err, r.herr)
		}
	}
	return nil
}

func (s *bSim) waitingRecvs(topic int) (out []*bRec) {
	for r := range s.recvs {
		if r.topic == topic {
			out = append(out, r)
		}
	}
	return
}

// endSession ends the current session at t.
func (s *bSim) endSession(t time.Duration, how string) error {
	if s.cur == nil {
		return nil
	}
	s.cur.ended = true
	s.cur = nil
	for tp, q := range s.queues {
		if len(q) > 0 {
			s.labels["session ends with messages left"] = true
		}
		delete(s.queues, tp)
	}
	for p := range s.pubs {
		if err := s.failed(p, t, nil, "the session ended: "+how); err != nil {
			return err
		}
		s.labels["session ends with a publish waiting"] = true
	}
	s.pubs = map[*bRec]time.Duration{}
	for r := range s.recvs {
		if err := s.failed(r, t, nil, "the session ended: "+how); err != nil {
			return err
		}
		s.labels["session ends with a receive waiting"] = true
	}
	s.recvs = map[*bRec]time.Duration{}
	return nil
}

func (c *bCtx) endedBy(t time.Duration) bool { return c != nil && c.at >= 0 && c.at <= t }

// primary performs the start of an operation.
func (s *bSim) primary(r *bRec) error {
	t := r.start
	s.lastT = t
	switch r.op {
	case "none":
		return nil
	case "open":
		if err := s.ended(r, t, "open returns at once"); err != nil {
			return err
		}
		if r.ctx.endedBy(t) && s.cur == nil {
			return nil // a session that is over at once, or none
		}
		if r.err != nil {
			return fmt.Errorf("%s: %v", s.name(r), r.err)
		}
		if s.cur == nil {
			s.labels["opened"] = true
			for _, m := range s.subs {
				_ = m
				s.labels["opened again"] = true
			}
			s.cur = &bSession{ctx: r.ctx}
		} else {
			s.labels["open of an open broker"] = true
		}
		return nil
	case "close":
		if err := s.succeeded(r, t, "close returns at once"); err != nil {
			return err
		}
		return s.endSession(t, s.name(r))
	case "cancel":
		return nil // the ends of contexts are instants of their own
	case "sub":
		if s.cur == nil {
			s.labels["sub while closed"] = true
			return s.failed(r, t, broker.ErrNotConnected, "the broker is not open")
		}
		if r.ctx.endedBy(t) && r.err != nil {
			s.labels["sub with an ended context"] = true
			return s.failed(r, t, s.ctxErr(r, t), "its context has ended")
		}
		if err := s.succeeded(r, t, "the broker is open"); err != nil {
			return err
		}
		if r.ctx.at >= 0 {
			s.labels["sub with a context that ends"] = true
		}
		s.subs[r.made] = &bModelSub{s.cur, true, r.topic}
		id, err := r.made.h.ID(context.Background())
		if err != nil {
			return fmt.Errorf("%s: ID: %v", s.name(r), err)
		}
		if s.ids[id] {
			return fmt.Errorf("%s: another subscription has the ID %q", s.name(r), id)
		}
		s.ids[id] = true
		tp, err := r.made.h.Topic(context.Background())
		if err != nil || tp != s.c.topics()[r.topic] {
			return fmt.Errorf("%s: its topic is %q, error %v", s.name(r), tp, err)
		}
		if len(s.queues[r.topic]) > 0 {
			s.labels["subscribed after publishing"] = true
		}
		return nil
	case "unsub":
		if err := s.succeeded(r, t, "unsubscribing returns at once"); err != nil {
			return err
		}
		m := s.subs[r.sub]
		if !m.active {
			s.labels["unsubscribed again"] = true
		} else if r.ctx.endedBy(t) {
			s.labels["unsubscribed with an ended context"] = true
		}
		m.active = false
		for w := range s.recvs {
			if w.sub == r.sub {
				if err := s.failed(w, t, nil, "its subscription ended"); err != nil {
					return err
				}
				s.labels["unsubscribed with a receive waiting"] = true
				delete(s.recvs, w)
			}
		}
		return nil
	case "pub":
		return s.pub(r, t)
	case "recv":
		return s.recv(r, t)
	}
	panic("op " + r.op)
}

func (s *bSim) pub(r *bRec, t time.Duration) error {
	if s.cur == nil {
		s.labels["pub while closed"] = true
		return s.failed(r, t, broker.ErrNotConnected, "the broker is not open")
	}
	waiting := s.waitingRecvs(r.topic)
	space := len(s.queues[r.topic]) < s.cap
	if r.ctx.endedBy(t) && (r.err != nil || len(waiting) == 0 && !space) {
		s.labels["pub with an ended context"] = true
		return s.failed(r, t, s.ctxErr(r, t), "its context has ended")
	}
	if len(waiting) > 0 {
		if err := s.succeeded(r, t, "a receive was waiting"); err != nil {
			return err
		}
		s.labels["handed to a waiting receive"] = true
		if len(waiting) > 1 {
			s.labels["several receives waiting"] = true
		}
		for _, w := range waiting {
			if w.calls > 0 && sameMsg(w.got, r.msg) {
				delete(s.recvs, w)
				return s.handled(w, r, t)
			}
		}
		return fmt.Errorf("m%d was published at %v while receives were waiting (%s), but none of them got it", r.id, t, s.name(waiting[0]))
	}
	if space {
		s.queues[r.topic] = append(s.queues[r.topic], r)
		s.labels["queued"] = true
		if len(s.queues[r.topic]) > 1 {
			s.labels["several messages queued"] = true
		}
		return s.succeeded(r, t, fmt.Sprintf("the topic holds %d of %d messages", len(s.queues[r.topic])-1, s.cap))
	}
	to := defTO
	if d := tenths(s.c.PubTO, s.c.PubSub); d > 0 {
		to = d
	}
	if d := r.ev.timeout(); d > 0 {
		to = d
	}
	s.labels["publish waits"] = true
	s.pubs[r] = t + to
	return nil
}

// letIn lets one of the waiting publishers put its message on the topic.
func (s *bSim) letIn(topic int, t time.Duration, direct func(*bRec) bool) (*bRec, error) {
	n := 0
	var last *bRec
	for p := range s.pubs {
		if p.topic != topic {
			continue
		}
		n++
		last = p
		if p.end == t && p.err == nil && p.panicked == "" && (direct == nil || direct(p)) {
			delete(s.pubs, p)
			s.labels["a waiting publish went through"] = true
			return p, nil
		}
	}
	if n == 0 {
		return nil, nil
	}
	return nil, fmt.Errorf("a message of topic %q was taken at %v, but none of the %d publishes waiting got through (%s)", s.c.topics()[topic], t, n, s.name(last))
}

func (s *bSim) recv(r *bRec, t time.Duration) error {
	m := s.subs[r.sub]
	if !m.active {
		s.labels["receive on an ended subscription"] = true
		return s.failed(r, t, broker.ErrSubscriptionInactive, "its subscription has ended")
	}
	if m.sess != s.cur {
		s.labels["receive on a subscription of an ended session"] = true
		return s.failed(r, t, nil, "its session has ended")
	}
	if r.ctx.endedBy(t) && r.calls == 0 {
		s.labels["receive with an ended context"] = true
		return s.failed(r, t, s.ctxErr(r, t), "its context has ended")
	}
	if q := s.queues[r.topic]; len(q) > 0 {
		s.queues[r.topic] = q[1:]
		p, err := s.letIn(r.topic, t, nil)
		if err != nil {
			return err
		}
		if p != nil {
			s.queues[r.topic] = append(s.queues[r.topic], p)
		}
		return s.handled(r, q[0], t)
	}
	p, err := s.letIn(r.topic, t, func(p *bRec) bool { return r.calls > 0 && sameMsg(p.msg, r.got) })
	if err != nil {
		return err
	}
	if p != nil {
		s.labels["taken from a waiting publish"] = true
		return s.handled(r, p, t)
	}
	to := defTO
	if d := r.ev.timeout(); d > 0 {
		to = d
	}
	s.labels["receive waits"] = true
	s.recvs[r] = t + to
	return nil
}

// ctxErr is the error of r's context, or nil if the session ends with it.
func (s *bSim) ctxErr(r *bRec, t time.Duration) error {
	if s.cur == nil || s.cur.ctx.endedBy(t) {
		return nil
	}
	return r.ctx.ctx.Err()
}

// until goes through the deadlines and ends of contexts before t.
func (s *bSim) until(t time.Duration) error {
	for {
		first := t
		var do func() error
		try := func(at time.Duration, f func() error) {
			if at < first {
				first, do = at, f
			}
		}
		waiting := func(m map[*bRec]time.Duration, what string) {
			for r, at := range m {
				try(at, func() error {
					delete(m, r)
					s.labels[what+" times out"] = true
					return s.failed(r, at, broker.ErrTimeout, "its timeout was over")
				})
				if e := r.ctx.at; e >= 0 {
					try(e, func() error {
						delete(m, r)
						s.labels[what+" ends with its context"] = true
						return s.failed(r, e, s.ctxErr(r, e), "its context ended")
					})
				}
			}
		}
		waiting(s.pubs, "publish")
		waiting(s.recvs, "receive")
		// calls end before the session when both have the same context
		if do == nil || s.cur != nil && s.cur.ctx.at >= 0 && s.cur.ctx.at <= first {
			if s.cur != nil && s.cur.ctx.at >= 0 && s.cur.ctx.at < t && (do == nil || s.cur.ctx.at <= first) {
				at := s.cur.ctx.at
				first, do = at, func() error {
					s.labels["session ends with its context"] = true
					return s.endSession(at, "its context ended")
				}
			}
		}
		if do == nil {
			return nil
		}
		if err := do(); err != nil {
			return err
		}
	}
}

func (s *bSim) run() error {
	nested := map[int]bool{}
	for _, r := range s.recs {
		if r.nested >= 0 {
			nested[r.nested] = true
		}
	}
	for _, r := range s.recs {
		if r.panicked != "" {
			return fmt.Errorf("%s panicked: %s", s.name(r), r.panicked)
		}
		if nested[r.id] || r.op == "none" {
			continue
		}
		if err := s.until(r.start); err != nil {
			return err
		}
		if err := s.primary(r); err != nil {
			return err
		}
	}
	if err := s.until(1 << 60); err != nil {
		return err
	}
	if err := s.afterHandlers(); err != nil {
		return err
	}
	for _, r := range s.recs {
		if r.op != "none" && r.end < 0 {
			return fmt.Errorf("%s has not returned", s.name(r))
		}
	}
	return nil
}

// ---- generators

type bWeights struct {
	open, close, pub, recv, sub, unsub, cancel int
	ctx, timeouts, burst, reuse                int
	caps                                       []int
	handlers                                   []string
}

// nearMs lists the times given and those around the dictionary's, in
// milliseconds.
func nearMs(l ...int) []int {
	for _, d := range dict.durs {
		if ms := int(d / time.Millisecond); ms > 0 && d <= 48*time.Hour {
			l = append(l, ms-1, ms, ms+1, 2*ms)
		}
	}
	out := l[:0]
	for _, n := range l {
		if n > 0 {
			out = append(out, n)
		}
	}
	return out
}

// drawTopics draws names of topics that are much alike.
func drawTopics(t *rapid.T) []string {
	b := drawStr(t, "name")
	if len(b) > 600 {
		b = b[:1]
	}
	seen := map[string]bool{b: true}
	l := []string{b}
	for i := rapid.IntRange(1, 3).Draw(t, "names"); i > 0; i-- {
		v := variant(t, b)
		if !seen[v] {
			seen[v] = true
			l = append(l, v)
		}
	}
	return l
}

func genBroker(w bWeights) func(*rapid.T) BrCase {
	var ops []string
	for _, o := range []struct {
		n    int
		name string
	}{{w.pub, "pub"}, {w.recv, "recv"}, {w.sub, "sub"}, {w.unsub, "unsub"}, {w.open, "open"}, {w.close, "close"}, {w.cancel, "cancel"}} {
		for i := 0; i < o.n; i++ {
			ops = append(ops, o.name)
		}
	}
	tos := nearMs(1, 2, 3, 10, 40, 700, 4999, 5001, 9000)
	subs := []int{0, 0, 0, 1, 4, 5, 9}
	gaps := []int{0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 5, 20, 100, 2000, 4998, 5002, 9000}
	for i := len(gaps); i < 2*len(tos); i++ { // the others stay as likely
		gaps = append(gaps, 0)
	}
	gaps = append(gaps, nearMs()...)
	return func(t *rapid.T) BrCase {
		c := BrCase{Cap: pick(t, "cap", w.caps)}
		if rapid.Bool().Draw(t, "pubto?") {
			c.PubTO = pick(t, "pubto", tos)
			c.PubSub = pick(t, "pubsub", subs)
		}
		if pct(t, 15, "noise?") {
			c.Noise = pick(t, "noise", tos)
		}
		topics := rapid.IntRange(1, 4).Draw(t, "topics")
		if pct(t, 4, "many topics?") {
			topics = len(bTopics)
		}
		if pct(t, 15, "msgs?") {
			c.Msgs = pick(t, "msgs", []int{1, 1, 2, 2, 2, 3})
		}
		if c.Msgs == 3 {
			c.Size = pick(t, "size", near(1<<20, 0, 0, 1, 1<<17))
		}
		if pct(t, 3, "cap?") {
			c.Cap = pick(t, "cap#", near(300, 16, 17, 64, 100, 101, 128))
		}
		if pct(t, 12, "names?") {
			c.Topics = drawTopics(t)
			topics = len(c.Topics)
		}
		ev := func(t *rapid.T, op string) BrEv {
			e := BrEv{Op: op, Gap: pick(t, "gap", gaps), T: rapid.IntRange(0, topics-1).Draw(t, "t"), S: uni(t, 8, "s")}
			switch op {
			case "pub", "recv":
				if pct(t, w.timeouts, "to?") {
					e.TO = pick(t, "to", tos)
					if e.Sub = pick(t, "sub", subs); e.Sub > 0 && pct(t, 30, "below a millisecond?") {
						e.TO = 0
					}
				}
				if pct(t, w.ctx, "ctx?") {
					e.Ctx = pick(t, "ctx", []int{1, 1, 2, 2, 2, 3, 4})
				}
				if pct(t, 10, "noise?") {
					e.Noise = pick(t, "noise", tos)
				}
			case "open":
				e.Ctx = pick(t, "ctx", []int{0, 1, 1, 2, 2, 3, 4})
			case "unsub":
				e.N = pick(t, "n", []int{0, 0, 1, 4})
				if pct(t, 30, "ctx?") {
					e.Ctx = pick(t, "ctx", []int{1, 3, 3, 4})
				}
			case "sub":
				if pct(t, 30, "ctx?") {
					e.Ctx = pick(t, "ctx", []int{1, 1, 2, 2, 4})
				}
			}
			if e.Ctx == 2 {
				e.CtxMs = pick(t, "ctxms", tos)
			}
			if op == "recv" {
				e.H = pick(t, "h", w.handlers)
				if e.H != "ok" {
					e.HMs = pick(t, "hms", tos)
					e.HT = rapid.IntRange(0, topics-1).Draw(t, "ht")
				}
			}
			return e
		}
		if pct(t, 95, "open?") {
			e := BrEv{Op: "open"}
			if pct(t, w.cancel*10, "ctx?") {
				e = ev(t, "open")
			}
			c.Evs = append(c.Evs, e)
		}
		if pct(t, 4, "crowd?") {
			// many topics, of which the first two only go on to be used
			topics = 2
			for i := range bTopics {
				if pct(t, 80, "there?") {
					c.Evs = append(c.Evs, BrEv{Op: pick(t, "by", []string{"pub", "sub", "pub", "sub", "recv"}), T: len(bTopics) - 1 - i, TO: 1, H: "ok"})
				}
			}
		}
		if pct(t, 70, "sub?") {
			for i := rapid.IntRange(1, 3).Draw(t, "subs"); i > 0; i-- {
				c.Evs = append(c.Evs, BrEv{Op: "sub", T: rapid.IntRange(0, topics-1).Draw(t, "t")})
			}
		}
		for _, e := range drawList(t, "evs", 0, 45, func(t *rapid.T) BrEv { return ev(t, pick(t, "op", ops)) }) {
			c.Evs = append(c.Evs, e)
			if e.Op == "pub" && pct(t, w.burst, "burst?") {
				n := c.Cap
				if n < 0 {
					n = defCap
				}
				for i := rapid.IntRange(max(0, n-2), n+3).Draw(t, "n"); i > 0; i-- {
					c.Evs = append(c.Evs, BrEv{Op: "pub", T: e.T, TO: e.TO, Sub: e.Sub})
				}
			}
			if e.Op == "close" && pct(t, w.reuse/3, "restart?") {
				o := ev(t, "open")
				o.Op, o.Gap = "reopen", e.Gap
				c.Evs[len(c.Evs)-1] = o
				continue
			}
			// a session left and a new one opened at once
			if (e.Op == "close" || e.Op == "cancel") && pct(t, w.reuse, "reopen?") {
				o := ev(t, "open")
				if rapid.Bool().Draw(t, "now?") {
					o.Gap = 0
				}
				c.Evs = append(c.Evs, o)
			}
		}
		return c
	}
}

func init() {
	caps := []int{0, 0, 1, 1, 2, 3, 5}
	capsD := append([]int{-1, -7}, caps...)
	register("B01", Part("histories", 16000, 400000, "virtual-time histories of some 45 operations (publish, subscribe, receive with handlers that fail, wait or use the broker, unsubscribe) on one to four topics (tail: 14), capacity 0 to 5 or the default 100, messages without UIDs, with UIDs shared or large ones among them, followed by taking everything that is left; non-trivial: three or more messages handled, one after waiting in a queue of several",
		genBroker(bWeights{pub: 7, recv: 7, sub: 2, unsub: 1, timeouts: 30, burst: 6, caps: capsD, handlers: []string{"ok", "ok", "ok", "err", "slow", "slowerr", "pub"}}),
		runBroker(func(s *bSim) bool { return len(s.taken) < 3 || !s.labels["several messages queued"] })))
	register("B03", Part("histories", 16000, 400000, "the same with publishes meeting full topics, ended contexts and session ends; non-trivial: a publish waited, and one was given up",
		genBroker(bWeights{pub: 9, recv: 4, sub: 2, unsub: 1, close: 1, cancel: 2, open: 1, ctx: 35, timeouts: 50, burst: 10, reuse: 60, caps: caps, handlers: []string{"ok", "ok", "slow", "pub", "close"}}),
		runBroker(func(s *bSim) bool {
			return !s.labels["publish waits"] || !(s.labels["publish times out"] || s.labels["publish ends with its context"] || s.labels["session ends with a publish waiting"])
		})))
	register("B04", Part("histories", 16000, 400000, "the same with sessions opened, closed, cancelled and opened again; non-trivial: opened more than once, with an operation in a later session",
		genBroker(bWeights{pub: 6, recv: 5, sub: 3, unsub: 1, close: 3, cancel: 3, open: 4, ctx: 10, timeouts: 30, burst: 4, reuse: 70, caps: caps, handlers: []string{"ok", "ok", "slow", "close", "unsub"}}),
		runBroker(func(s *bSim) bool { return !s.labels["opened again"] })))
	register("B05", Part("histories", 16000, 400000, "the same with calls waiting when their session, context or subscription ends; non-trivial: a waiting call was ended in one of these ways",
		genBroker(bWeights{pub: 7, recv: 8, sub: 3, unsub: 2, close: 2, cancel: 4, open: 2, ctx: 60, timeouts: 40, burst: 6, reuse: 50, caps: caps, handlers: []string{"ok", "slow", "unsub", "close"}}),
		runBroker(func(s *bSim) bool {
			for _, l := range []string{"session ends with a publish waiting", "session ends with a receive waiting", "publish ends with its context", "receive ends with its context", "unsubscribed with a receive waiting"} {
				if s.labels[l] {
					return false
				}
			}
			return true
		})))
	register("B06", Part("histories", 16000, 400000, "the same with subscriptions ended, repeatedly and by several goroutines at once; non-trivial: ended with a receive waiting or received on afterwards, while messages are handled",
		genBroker(bWeights{pub: 6, recv: 8, sub: 4, unsub: 5, close: 1, open: 1, ctx: 10, timeouts: 40, burst: 4, reuse: 90, caps: caps, handlers: []string{"ok", "ok", "unsub", "slow", "err"}}),
		runBroker(func(s *bSim) bool {
			return len(s.taken) == 0 || !(s.labels["unsubscribed with a receive waiting"] || s.labels["receive on an ended subscription"])
		})))
	register("B07", Part("histories", 16000, 400000, "the same with timeouts given to calls, to the broker, or to none (5 s); non-trivial: a publish and a receive timed out, or one did and another got through after waiting",
		genBroker(bWeights{pub: 8, recv: 8, sub: 3, cancel: 1, ctx: 15, timeouts: 55, burst: 10, caps: caps, handlers: []string{"ok", "ok", "slow"}}),
		runBroker(func(s *bSim) bool {
			p, r := s.labels["publish times out"], s.labels["receive times out"]
			return !(p && r || (p || r) && (s.labels["a waiting publish went through"] || s.labels["handed to a waiting receive"]))
		})))
}
